"""I/O operations of a program, recorded or made to fail one at a time.

Every FITS file is opened, read, written and closed through the C object of
fitsio, every output directory is created with os.makedirs. ``install`` puts
a counting layer below fitsio's Python classes, so that it does not matter
how the code under test spells its I/O.

An operation is named (rank, file, operation, n): the n-th time this process
does that to the file. ``plan`` says which one fails, and whether all later
operations of the same kind fail as well (full disk, lost file system).
"""
import os

import fitsio.fitslib as fitslib

WRITES = ("create", "write", "flush", "makedirs")
KINDS = {}
for _n in ("read_as_rec", "read_column", "read_columns_as_rec",
           "read_columns_as_rec_byoffset", "read_header", "read_image",
           "read_image_slice", "read_rows_as_rec", "read_var_column_as_list"):
    KINDS[_n] = "read"
for _n in ("create_image_hdu", "create_table_hdu", "write_columns",
           "write_image", "insert_col", "write_var_column"):
    KINDS[_n] = "write"

state = dict(rank=0, log=None, fail=None, lasting=False, fired=None,
             count={}, broken=set())
_Base = fitslib._fitsio_wrap.FITS
_makedirs = os.makedirs


def _note(name):
    if state["log"]:
        with open(state["log"], "a") as f:
            f.write(name + "\n")


def _op(path, kind):
    """one operation; True if it has to fail"""
    if not (state["log"] or state["fail"]):
        return False
    base = os.path.basename(str(path).split("[")[0].rstrip("/"))
    key = (base, kind)
    n = state["count"][key] = state["count"].get(key, -1) + 1
    name = f"{state['rank']} {base} {kind} {n}"
    _note(name)
    bad = name == state["fail"]
    if bad and state["lasting"]:
        state["broken"].add("write" if kind in WRITES else "read")
    if not bad and state["broken"]:
        bad = ("write" if kind in WRITES else "read") in state["broken"]
    if bad and state["fired"]:
        with open(state["fired"], "a") as f:
            f.write(name + "\n")
    return bad


class _FITS(_Base):
    def __init__(self, filename, mode, create, *a):
        self._qname = filename
        self._qwrite = bool(mode) or bool(create)
        if _op(filename, "create" if create else "open"):
            raise OSError(f"injected: cannot open {filename}")
        super().__init__(filename, mode, create, *a)
        self._qopen = True

    def close(self):
        lose = (getattr(self, "_qopen", False) and self._qwrite
                and _op(self._qname, "flush"))
        self._qopen = False
        super().close()
        if lose:
            # what was buffered did not get to the disk
            name = self._qname.lstrip("!")
            if os.path.isfile(name):
                os.truncate(name, os.path.getsize(name) // 2)
            raise OSError(f"injected: cannot flush {name}")


def _wrap(name, kind):
    base = getattr(_Base, name)

    def method(self, *a, **k):
        if _op(self._qname, kind):
            raise OSError(f"injected: cannot {kind} {self._qname}")
        return base(self, *a, **k)
    method.__name__ = name
    return method


for _n, _k in KINDS.items():
    if hasattr(_Base, _n):
        setattr(_FITS, _n, _wrap(_n, _k))


def _mk(name, *a, **k):
    if _op(name, "makedirs"):
        raise OSError(f"injected: cannot make {name}")
    return _makedirs(name, *a, **k)


def install():
    """before the code under test is imported"""
    fitslib._fitsio_wrap.FITS = _FITS
    os.makedirs = _mk


def plan(rank, log=None, fail=None, lasting=False, fired=None):
    state.update(rank=rank, log=log, fail=fail, lasting=lasting, fired=fired,
                 count={}, broken=set())
