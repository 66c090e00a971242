"""Environment of a harness run: imports the code under test from /repo and,
in symbolic mode, substitutes the modules and builtins through which backy
touches symbolic values.  All substitutions are by object identity over the
globals of every backy module, so they survive refactorings."""

import builtins
import contextlib
import datetime as real_dt
import os
import random as real_random
import shutil
import sys
import tempfile
import time as real_time
import types

from . import proxies
from .proxies import SymBool, SymDT, SymInt, SymReal, SymTD, _Sym

REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")

BACKY_MODULES = [
    "backy",
    "backy.utils",
    "backy.ext_deps",
    "backy.logging",
    "backy.report",
    "backy.revision",
    "backy.schedule",
    "backy.repository",
    "backy.source",
    "backy.rbd",
    "backy.rbd.rbd",
    "backy.rbd.chunked",
    "backy.rbd.chunked.chunk",
    "backy.rbd.chunked.file",
    "backy.rbd.chunked.store",
    "backy.file",
    "backy.daemon",
    "backy.daemon.api",
    "backy.daemon.scheduler",
    "backy.cli",
]


class NullLog:
    """Accepts every log call."""

    _context = {"taskid": "AAAA"}

    def bind(self, *a, **kw):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._noop

    def _noop(self, *a, **kw):
        return None

    def exception(self, *a, **kw):
        if os.environ.get("SX_DEBUG"):
            import traceback

            traceback.print_exc()


LOG = NullLog()

_loaded = False


def load_backy():
    global _loaded
    if _loaded:
        return
    _loaded = True
    import importlib

    if not os.environ.get("SX_PLAIN"):
        from . import rewrite

        rewrite.install()
    for m in BACKY_MODULES:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            # only a refactoring that moved a module may cause this
            if not (e.name or "").startswith("backy"):
                raise
    import backy

    assert os.path.realpath(backy.__file__).startswith(
        os.path.realpath(REPO_SRC)
    ), backy.__file__


def backy_modules():
    return [
        m
        for n, m in list(sys.modules.items())
        if (n == "backy" or n.startswith("backy."))
        and m is not None
        and ".tests" not in n
        and not n.endswith("conftest")
    ]


class Patcher:
    def __init__(self):
        self.undo = []

    def setattr(self, obj, name, value):
        missing = object()
        d = obj.__dict__ if isinstance(obj, types.ModuleType) else None
        old = (
            d.get(name, missing) if d is not None else getattr(obj, name, missing)
        )
        self.undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def replace(self, old, new):
        """Replace a global by identity in every backy module."""
        n = 0
        for m in backy_modules():
            for k, v in list(m.__dict__.items()):
                if v is old:
                    self.setattr(m, k, new)
                    n += 1
        return n

    def restore(self):
        for obj, name, old, missing in reversed(self.undo):
            if old is missing:
                with contextlib.suppress(AttributeError):
                    delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.undo = []


# ---------------------------------------------------------------------------
# symbolic-aware builtins

_MAP = {}


def _types(t):
    if isinstance(t, tuple):
        r = ()
        for x in t:
            r += _types(x)
        return r
    t = _UNSHIM.get(t, t)
    return (t,) + _MAP.get(t, ())


def sym_isinstance(o, t):
    if hasattr(o, "_symbytes"):
        from .symbytes import SymByteArray

        mutable = isinstance(o, SymByteArray)
        return any(
            x is object or x is (bytearray if mutable else bytes)
            or (isinstance(x, type) and x is type(o))
            for x in _types(t)
        )
    try:
        return isinstance(o, _types(t))
    except TypeError:
        return isinstance(o, t)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymInt))

    def __call__(cls, x=0, *a, **kw):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, (SymReal,)):
            return x.to_int()
        if isinstance(x, SymBool):
            return int(x)
        if hasattr(x, "_sym_int"):
            return x._sym_int()
        if type(x) is str and not a and not kw and _CTX[0] is not None:
            v = _CTX[0].decimals.get(x.strip())
            if v is not None:
                return v
        return int(x, *a, **kw)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)

    def from_bytes(cls, b, byteorder="big", *, signed=False):
        if hasattr(b, "_symbytes"):
            from .symbytes import int_from_bytes

            return int_from_bytes(b, byteorder, signed)
        return int.from_bytes(b, byteorder, signed=signed)

    def __getattr__(cls, n):
        return getattr(int, n)


class SymIntType(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return x / 1
        if type(x) is str and _CTX[0] is not None:
            v = _CTX[0].decimals.get(x.strip())
            if v is not None:
                return v / 1
        return float(x)

    def __getattr__(cls, n):
        return getattr(float, n)


class SymFloatType(metaclass=_FloatMeta):
    pass


def sym_len(x):
    f = getattr(type(x), "_symlen", None)
    if f is not None:
        return f(x)
    return len(x)


def sym_range(*a):
    if any(isinstance(x, SymInt) for x in a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        return SymRange(*a)
    return range(*a)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, SymInt):
            self.step = int(step)

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def _symlen(self):
        assert self.step > 0
        n = (self.stop - self.start + self.step - 1) // self.step
        return sym_max(n, 0)

    def __len__(self):
        return int(self._symlen())

    def __getitem__(self, i):
        return self.start + i * self.step

    def __contains__(self, x):
        return bool(
            (x >= self.start) & (x < self.stop)
            & ((x - self.start) % self.step == 0)
        )


def _minmax(builtin, less):
    def f(*a, **kw):
        if kw:
            return builtin(*a, **kw)
        items = list(a[0]) if len(a) == 1 else list(a)
        if len(items) > 1 and any(isinstance(x, SymInt) for x in items):
            if all(
                isinstance(x, (int, SymInt)) for x in items
            ):
                import z3

                ctx = next(x.ctx for x in items if isinstance(x, SymInt))
                r = proxies.zint(items[0])
                for x in items[1:]:
                    e = proxies.zint(x)
                    c = (e < r) if less else (e > r)
                    r = z3.If(c, e, r)
                return proxies.mkint(ctx, r)
        if not items:
            return builtin(items)
        return builtin(items)

    return f


sym_min = _minmax(min, True)
sym_max = _minmax(max, False)


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, bytes) or hasattr(o, "_symbytes")

    def __call__(cls, x=b"", *a, **kw):
        if hasattr(x, "_symbytes"):
            return x
        if isinstance(x, SymInt):
            from .symbytes import zeroes

            if x < 0:
                raise ValueError("negative count")
            return zeroes(x.ctx, x)
        return bytes(x, *a, **kw)

    def __eq__(cls, o):
        return o is bytes or o is cls

    def __hash__(cls):
        return hash(bytes)

    def __getattr__(cls, n):
        return getattr(bytes, n)


class SymBytesType(metaclass=_BytesMeta):
    pass


def sym_memoryview(x):
    return x if hasattr(x, "_symbytes") else memoryview(x)


def sym_bytearray(x=b"", *a, **kw):
    if isinstance(x, SymInt) or hasattr(x, "_symbytes"):
        from .symbytes import SymByteArray

        return SymByteArray(SymBytesType(x))
    if _CTX[0] is not None and _CTX[0].symbolic and not a and not kw:
        from .symbytes import SymByteArray, rope

        return SymByteArray(rope(_CTX[0], bytes(x)))
    return bytearray(x, *a, **kw)


def sym_any(it):
    if hasattr(it, "_symbytes"):
        return it.nonzero()
    return any(it)


def sym_round(x, n=None):
    if isinstance(x, (SymReal, SymInt)):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def sym_sum(it, start=0):
    for x in it:
        start = start + x
    return start


# --- datetime shims --------------------------------------------------------

_UNSHIM = {}
_CTX = [None]


class _TDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (real_dt.timedelta, SymTD))

    def __call__(cls, *a, **kw):
        if any(isinstance(x, _Sym) for x in a) or any(
            isinstance(x, _Sym) for x in kw.values()
        ):
            names = [
                "days", "seconds", "microseconds", "milliseconds",
                "minutes", "hours", "weeks",
            ]
            kw = dict(zip(names, a)) | kw
            return proxies.make_td(_CTX[0], **kw)
        return real_dt.timedelta(*a, **kw)

    def __getattr__(cls, n):
        return getattr(real_dt.timedelta, n)


class SymTimedelta(metaclass=_TDMeta):
    pass


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (real_dt.datetime, SymDT))

    def __call__(cls, *a, **kw):
        return real_dt.datetime(*a, **kw)

    def fromisoformat(cls, s):
        if isinstance(s, str) and s.startswith("SYMDT:"):
            return _CTX[0].registry[int(s[6:])]
        if isinstance(s, SymDT):
            raise TypeError("fromisoformat: argument must be str")
        return real_dt.datetime.fromisoformat(s)

    def __getattr__(cls, n):
        return getattr(real_dt.datetime, n)


class SymDatetime(metaclass=_DTMeta):
    pass


class _DTModule:
    datetime = SymDatetime
    timedelta = SymTimedelta

    def __getattr__(self, n):
        return getattr(real_dt, n)


DTMODULE = _DTModule()
_UNSHIM[SymTimedelta] = real_dt.timedelta
_UNSHIM[SymDatetime] = real_dt.datetime
_UNSHIM[SymIntType] = int
_UNSHIM[SymFloatType] = float
_UNSHIM[SymBytesType] = bytes
_UNSHIM[sym_bytearray] = bytearray
_UNSHIM[sym_memoryview] = memoryview
_MAP[int] = (SymInt,)
_MAP[float] = (SymReal,)
_MAP[bool] = (SymBool,)
_MAP[real_dt.datetime] = (SymDT,)
_MAP[real_dt.timedelta] = (SymTD,)

# --- yaml: proxies survive a round trip through real YAML text -------------


def _yaml_setup():
    import yaml

    def rep(dumper, data):
        reg = data.ctx.registry
        reg.append(data)
        return dumper.represent_scalar("!sym", str(len(reg) - 1))

    def con(loader, node):
        return _CTX[0].registry[int(loader.construct_scalar(node))]

    for cls in (SymInt, SymBool, SymReal, SymDT, SymTD, proxies.SymStr):
        yaml.add_representer(cls, rep, Dumper=yaml.SafeDumper)
        yaml.add_representer(cls, rep, Dumper=yaml.Dumper)
    yaml.add_constructor("!sym", con, Loader=yaml.SafeLoader)


_yaml_done = False


SYM_BUILTINS = {
    "isinstance": sym_isinstance,
    "int": SymIntType,
    "float": SymFloatType,
    "len": sym_len,
    "range": sym_range,
    "min": sym_min,
    "max": sym_max,
    "round": sym_round,
    "sum": sym_sum,
    "bytes": SymBytesType,
    "bytearray": sym_bytearray,
    "memoryview": sym_memoryview,
    "any": sym_any,
}


class _Humanize:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        real = getattr(self._real, n)

        def f(*a, **kw):
            if any(isinstance(x, _Sym) for x in a):
                return "<text>"
            return real(*a, **kw)

        return f


_BASE = None


def scratch_base():
    global _BASE
    if _BASE is None:
        b = os.environ.get("SX_SCRATCH")
        if not b:
            root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
            b = tempfile.mkdtemp(prefix="sxscratch.", dir=root)
            os.environ["SX_SCRATCH"] = b
        _BASE = b
    return _BASE


class Env:
    """Per-path environment."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = Patcher()
        self._tmp = None
        self._n = 0
        self.slept = []
        self.vfiles = {}

    # plain data files (restore targets, block devices) ---------------------
    @property
    def dev(self):
        """Directory whose files carry symbolic content."""
        d = self.tmp / "dev"
        d.mkdir(exist_ok=True)
        return d

    def put(self, path, content):
        path = str(path)
        if self.ctx.symbolic:
            from .symbytes import rope

            self.vfiles[path] = [rope(self.ctx, content)]
        else:
            with open(path, "wb") as f:
                f.write(content)

    def get(self, path):
        """Content of a data file, None if there is none."""
        path = str(path)
        if self.ctx.symbolic:
            from .symbytes import rope

            if path in self.vfiles:
                return self.vfiles[path][0]
            if os.path.exists(path):
                return rope(self.ctx, open(path, "rb").read())
            return None
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def drop(self, path):
        """Remove a data file."""
        path = str(path)
        self.vfiles.pop(path, None)
        if os.path.exists(path):
            os.unlink(path)

    def file(self, content, name="<file>"):
        """An open read-write file object."""
        if self.ctx.symbolic:
            from .symbytes import SymFile

            return SymFile(self.ctx, content, name)
        f = tempfile.TemporaryFile(dir=self.tmp)
        f.write(content)
        f.seek(0)
        return f

    def content(self, f):
        if self.ctx.symbolic:
            return f.content
        f.flush()
        f.seek(0)
        return f.read()

    def _open(self, file, mode="r", *a, **kw):
        name = os.fspath(file) if not isinstance(file, int) else None
        if name is None or not str(name).startswith(self._devdir):
            return open(file, mode, *a, **kw)
        from .symbytes import SymBytes, VFile

        name = str(name)
        if "b" not in mode:
            raise proxies.Limit("text mode on a data file")
        if name not in self.vfiles:
            if "r" in mode:
                raise FileNotFoundError(2, "No such file", name)
            self.vfiles[name] = [SymBytes(self.ctx)]
        return VFile(self.ctx, self.vfiles[name], name, mode)

    @property
    def tmp(self):
        from pathlib import Path

        if self._tmp is None:
            self._tmp = os.path.join(scratch_base(), f"p{os.getpid()}")
            if os.path.isdir(self._tmp):
                shutil.rmtree(self._tmp)
            os.mkdir(self._tmp)
        return Path(self._tmp)

    def close(self):
        self.p.restore()
        _CTX[0] = None
        if self._tmp is not None:
            assert self._tmp.startswith(scratch_base() + "/")
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # environment stubs used in both modes ---------------------------------
    def common(self):
        import backy.utils

        p = self.p
        for m in backy_modules():
            if "log" in m.__dict__ and hasattr(m.__dict__["log"], "bind"):
                p.setattr(m, "log", LOG)
        self.fixed_uuids()
        p.setattr(real_time, "sleep", self._sleep)

    def _sleep(self, s):
        self.slept.append(s)

    def fixed_uuids(self):
        import shortuuid

        def uuid(*a, **kw):
            self._n += 1
            return f"uuid{self._n:04d}"

        self.p.setattr(shortuuid, "uuid", uuid)

    def set_now(self, value):
        """backy's notion of the current time."""
        import backy.utils

        f = value if callable(value) else (lambda: value)
        if not hasattr(self, "_now_orig"):
            self._now_orig = backy.utils.now
            self._now_cur = self._now_orig
        self.p.replace(self._now_cur, f)
        self._now_cur = f

    def set_time(self, fn):
        self.p.setattr(real_time, "time", fn)

    def symbolic(self):
        global _yaml_done
        if not _yaml_done:
            _yaml_setup()
            _yaml_done = True
        _CTX[0] = self.ctx
        p = self.p
        for m in backy_modules():
            for name, f in SYM_BUILTINS.items():
                if name not in m.__dict__:
                    p.setattr(m, name, f)
            if "open" not in m.__dict__:
                p.setattr(m, "open", self._open)
        self._devdir = str(self.tmp / "dev") + "/"
        try:
            import humanize
        except ImportError:
            humanize = None
        if humanize is not None:
            # texts for log messages
            p.replace(humanize, _Humanize(humanize))
        import hmac
        import secrets

        real_compare = hmac.compare_digest

        def compare_digest(a, b):
            symbolic = (proxies.SymStr, proxies.SymEncoded)
            if isinstance(a, symbolic):
                return a == b
            if isinstance(b, symbolic):
                return b == a
            return real_compare(a, b)

        for m in (hmac, secrets):
            p.setattr(m, "compare_digest", compare_digest)
        p.replace(real_compare, compare_digest)
        p.replace(real_dt, DTMODULE)
        p.replace(real_dt.timedelta, SymTimedelta)
        p.replace(real_dt.datetime, SymDatetime)

    def chunks(self):
        """Make the chunk store's libraries symbolic; deterministic clock for
        the cache statistics."""
        n = [0]

        def clock():
            n[0] += 1
            return 1.7e9 + n[0]

        self.set_time(clock)
        self.sampling()
        if self.ctx.symbolic:
            from . import symbytes

            symbytes.install(self)

    def sampling(self):
        """random.sample draws arbitrary distinct elements."""
        n = [0]
        ctx = self.ctx

        def sample(population, k, **kw):
            size = sym_len(population)
            k = int(k)
            if k < 0 or bool(size < k):
                raise ValueError("Sample larger than population")
            idx = []
            for _ in range(k):
                n[0] += 1
                if isinstance(size, int) and size == 1:
                    i = 0
                else:
                    i = ctx.int(f"sample{n[0]}", 0, 1 << 40)
                    ctx.assume(i < size)
                    for o in idx:
                        ctx.assume(i != o)
                idx.append(i)
            if isinstance(population, (range, SymRange)):
                return [
                    population.start + i * population.step for i in idx
                ]
            return [population[int(i)] for i in idx]

        old = real_random.sample
        self.p.setattr(real_random, "sample", sample)
        self.p.replace(old, sample)


@contextlib.contextmanager
def environment(ctx):
    load_backy()
    env = Env(ctx)
    try:
        env.common()
        if ctx.symbolic:
            env.symbolic()
        yield env
    finally:
        env.close()
