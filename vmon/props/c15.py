"""C15: JSON round trip of a TicDat preserves the data."""
import json, datetime, os
import numpy as np
from ..core import Registry, Skip
from .. import gen, ref, files
from .c04 import tic_snap

reg = Registry()
reg.rule = ("random typed schemas and cells of every JSON-representable kind, three layouts, file or string; the monitor compares "
            "every cell read back with the one written, and parses the file with an independent JSON parse; distinct by "
            "(schema, layout, rows)")
reg.assumptions = ["the JSON pandas layout recovers untyped text that looks like a number as that number (pandas typing)",
                   "NaN and infinity are written as Python's json module does unless infinity_io_flag is set",
                   "integers of the pandas layout fit in 64 bits"]
LAYOUTS = {"json": {}, "json verbose": {"verbose": True}, "json pandas": {"to_pandas": True}}


def make(case, fmt=None):
    import ticdat
    rng = case.rng
    fmt = fmt or rng.choice(list(LAYOUTS))
    s = files.schema(rng, fmt)
    munge = rng.random() > .2
    rows = files.data(case, fmt, s, automunge=munge)
    case.describe(fmt=fmt, schema=s, rows=rows, automunge=munge)
    fct, rd = s.build(ticdat.TicDatFactory), s.build(ticdat.TicDatFactory)
    if not munge:
        fct.set_automunge_multitype_fields(False), rd.set_automunge_multitype_fields(False)
    dat = fct.TicDat(**files.tic_args(case, s, rows))
    return s, fct, rd if rng.random() < .5 else fct, dat, gen.tic_rows(s, dat), fmt, munge


def plain(x):
    """what json.loads gives for a cell"""
    if ref.is_dt(x):
        return str(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


@reg.scenario(quick=2500, thorough=40000, needs=("cells_compared", "as_string", "fmt json", "fmt json verbose", "fmt json pandas"))
def round_trip(case):
    """write, read, compare; string and file forms; frozen objects; pandas layout recognised or announced"""
    rng = case.rng
    s, fct, rd, dat, rows, fmt, munge = make(case)
    if rng.random() < .2:
        dat = fct.freeze_me(dat)
    before = tic_snap(s, dat)
    if rng.random() < .4:
        src = text = fct.json.write_file(dat, "", **LAYOUTS[fmt])
        case.count("as_string")
    else:
        src = case.path("x.json")
        if rng.random() < .2:
            with open(src, "w") as f:
                f.write("{}" + " " * 5000)
        fct.json.write_file(dat, src, allow_overwrite=True, **LAYOUTS[fmt])
        text = open(src, encoding="utf8").read()
    case.eq(tic_snap(s, dat), before, "write_file changed the object")
    j = json.loads(text)
    case.eq(set(j), set(s.normal()), "tables in the file")
    if fmt != "json pandas":
        for t in s.normal():
            want = [list(map(plain, r)) for r in rows[t]]
            got = [[r[f] for f in s.fields(t)] if isinstance(r, dict) else r for r in j[t]]
            case.check(all(isinstance(r, dict) == (fmt == "json verbose") for r in j[t]), "row layout")
            case.eq(repr([[ref.canon(x) for x in r] for r in got]), repr([[ref.canon(x) for x in r] for r in want]),
                    "cells of %s in the file" % t)
    kw = {"from_pandas": True} if fmt == "json pandas" and rng.random() < .3 else {}
    frz = rng.random() < .2
    back = rd.json.create_tic_dat(src, freeze_it=frz, **kw)
    case.check(rd.good_tic_dat_object(back), "read object is not good")
    if frz:
        with case.must_raise("attribute assignment on a frozen object"):
            setattr(back, s.normal()[0], {})
    got = gen.tic_rows(s, back)
    files.compare(case, fmt, s, got, rows, fmt, automunge=munge)
    for t in s.normal():
        if s.pks(t):
            k = len(s.pks(t))
            case.eq([min(map(repr, files.expected(fmt, s, t, s.pks(t)[0], r[0], munge))) for r in rows[t]],
                    [repr(ref.canon(r[0])) for r in got[t]], "row order of " + t)
    case.count("fmt " + fmt)
    if any(rows.values()):
        case.nontrivial(s.sig(), fmt, rows)
    case.sample(dict(fmt=fmt, schema=s, rows=rows))


@reg.scenario(quick=300, thorough=5000, needs=("cells_compared",))
def twice(case):
    """a second round trip changes nothing more; the three layouts agree"""
    rng = case.rng
    s, fct, rd, dat, rows, _, munge = make(case, "json pandas")
    fmt, other = rng.sample(list(LAYOUTS), 2)
    a = rd.json.create_tic_dat(fct.json.write_file(dat, "", **LAYOUTS[fmt]))
    b = fct.json.create_tic_dat(rd.json.write_file(a, "", **LAYOUTS[fmt]))
    case.eq(gen.canon_rows(gen.tic_rows(s, b)), gen.canon_rows(gen.tic_rows(s, a)), "second round trip")
    c = rd.json.create_tic_dat(fct.json.write_file(a, "", **LAYOUTS[other]))
    files.compare(case, "json pandas", s, gen.tic_rows(s, c), rows, "via %s then %s" % (fmt, other), automunge=munge)
    if any(rows.values()):
        case.nontrivial(s.sig(), fmt, other, rows)


@reg.scenario(quick=240, thorough=2880, needs=("steps", "nudged", "renamed"))
def same_path(case):
    """one path written and read repeatedly by the same objects: always the current content"""
    rng = case.rng
    files.same_path(case, rng.choice(list(LAYOUTS)))
