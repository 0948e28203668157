"""Records every state of the data folder that an interruption of a command can leave behind."""
import builtins
import contextlib
import io
import os

from checks import simflow as sf

ROOT = "data"


def inside(path):
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p.startswith(os.path.abspath(ROOT) + os.sep)


class Recorder(object):
    """Snapshots of the folder after every change made to a file in it."""

    def __init__(self):
        self.states = []
        self._last = None

    def changed(self):
        s = sf.snapshot()
        if s == self._last:
            return
        if self._last is not None:
            for p in s:  # the write interrupted in its middle
                old, new = self._last.get(p), s[p]
                if old is not None and new != old and len(new) > len(old) + 1 and new[:len(old)] == old:
                    t = dict(s)
                    t[p] = new[:(len(old) + len(new)) // 2]
                    self.states.append(t)
        self.states.append(s)
        self._last = s


class Watched(object):
    """A file open for writing."""

    def __init__(self, f, rec):
        self.__dict__.update(_f=f, _rec=rec)

    def _after(self, r):
        if not self._f.closed:
            self._f.flush()
        self._rec.changed()
        return r

    def write(self, data):
        return self._after(self._f.write(data))

    def writelines(self, data):
        for d in data:
            self.write(d)

    def truncate(self, *a):
        return self._after(self._f.truncate(*a))

    def close(self):
        self._f.close()
        self._rec.changed()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)


@contextlib.contextmanager
def recording():
    rec = Recorder()
    rec.changed()
    real = {"open": builtins.open, "io": io.open}
    moves = {k: getattr(os, k) for k in ("replace", "rename", "remove", "unlink")}

    def opened(file, mode="r", *a, **kw):
        f = real["open"](file, mode, *a, **kw)
        if any(c in mode for c in "wax+") and not isinstance(file, int) and inside(file):
            rec.changed()
            return Watched(f, rec)
        return f

    def moved(name):
        def go(*a, **kw):
            r = moves[name](*a, **kw)
            rec.changed()
            return r
        return go
    builtins.open = io.open = opened
    for k in moves:
        setattr(os, k, moved(k))
    try:
        yield rec
    finally:
        builtins.open, io.open = real["open"], real["io"]
        for k in moves:
            setattr(os, k, moves[k])
        rec.changed()
