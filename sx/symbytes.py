"""Symbolic byte strings: ropes of slices of named blobs, zeroes, literals and
packed integers, with symbolic offsets and lengths.

Blob bytes are generic: a byte is identified with (blob, index), so two bytes
are equal iff they are the same byte of the same blob.  The code under test
treats contents opaquely (copies, compares, hashes, zero-tests), so this
covers all contents up to the equality pattern; harnesses write the same blob
twice and zeroes to cover equal contents.
"""

import hashlib
import io as real_io
import os as real_os
import random
import re
import struct as real_struct

import z3

from . import proxies
from .proxies import SymBool, SymInt, zint

TOKEN = re.compile(rb"\x01SYMB:(\d+);")


class Src:
    def __init__(self, kind, name, data=None):
        self.kind = kind  # leaf, zero, lit, field, lzo
        self.name = name
        self.data = data

    def __repr__(self):
        return f"{self.kind}:{self.name}"


ZERO = Src("zero", "0")


def _src_uid(ctx, src):
    if src.kind == "zero":
        return 0
    ids = ctx.memo.setdefault(("srcids",), {})
    if id(src) not in ids:
        ids[id(src)] = (len(ids) + 1, src)
    return ids[id(src)][0]


def _same(a, b):
    """Structurally equal numbers (no solver)."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(zint(a) - zint(b))
    return z3.is_int_value(d) and d.as_long() == 0


class SymBytes:
    _symbytes = True
    _sym = True

    def __init__(self, ctx, segs=()):
        self.ctx = ctx
        out = []
        for s, o, n in segs:
            if isinstance(n, int) and n == 0:
                continue
            if out:
                ps, po, pn = out[-1]
                if ps is s and (s is ZERO or _same(po + pn, o)):
                    out[-1] = (s, po, pn + n)
                    continue
            out.append((s, 0 if s is ZERO else o, n))
        self.segs = out

    # length
    def _symlen(self):
        n = 0
        for _, _, m in self.segs:
            n = n + m
        return n

    def __len__(self):
        return int(self._symlen())

    def __bool__(self):
        return bool(self._symlen() != 0) if self.segs else False

    # slices
    def __getitem__(self, i):
        if not isinstance(i, slice):
            b = self.slice(i, i + 1)
            return b.to_bytes()[0]
        assert i.step in (None, 1)
        a, b = i.start, i.stop
        if a is None:
            a = 0
        if a < 0:
            a = a + self._symlen()
            if a < 0:
                a = 0
        if b is not None and b < 0:
            b = b + self._symlen()
            if b < 0:
                b = 0
        return self.slice(a, b)

    def slice(self, a, b=None):
        out = []
        start = 0
        for s, o, n in self.segs:
            end = start + n
            if b is not None and b <= start:
                break
            if end > a:
                lo = start
                if a > start:
                    lo = a
                hi = end
                if b is not None and b < end:
                    hi = b
                if hi > lo:
                    out.append((s, o + (lo - start), hi - lo))
            start = end
        return SymBytes(self.ctx, out)

    # concatenation
    def __add__(self, o):
        return SymBytes(self.ctx, self.segs + rope(self.ctx, o).segs)

    def __radd__(self, o):
        return SymBytes(self.ctx, rope(self.ctx, o).segs + self.segs)

    # comparison
    def eq(self, other):
        a = list(self.segs)
        b = list(rope(self.ctx, other).segs)
        if a and b:
            x, y = a[0][0], b[0][0]
            if x is not y and "leaf" in (x.kind, y.kind):
                return False
        la, lb = self._symlen(), SymBytes(self.ctx, b)._symlen()
        if not _same(la, lb) and not (la == lb):
            return False
        while a and b:
            s1, o1, n1 = a.pop(0)
            s2, o2, n2 = b.pop(0)
            if not _same(n1, n2):
                if n1 < n2:
                    b.insert(0, (s2, o2 + n1, n2 - n1))
                    n2 = n1
                elif n1 > n2:
                    a.insert(0, (s1, o1 + n2, n1 - n2))
                    n1 = n2
            if s1 is s2:
                if s1 is ZERO or _same(o1, o2) or o1 == o2:
                    continue
                if s1.kind == "leaf":
                    return False
            if "leaf" in (s1.kind, s2.kind):
                return False
            if s1.kind == "lzo" or s2.kind == "lzo":
                if s1.kind == s2.kind:
                    return s1.data.eq(s2.data)
                return False
            x = SymBytes(self.ctx, [(s1, o1, n1)]).to_bytes()
            y = SymBytes(self.ctx, [(s2, o2, n2)]).to_bytes()
            if x != y:
                return False
        return True

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        return self.eq(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise proxies.Limit("hash of bytes")

    # conversions
    def to_bytes(self):
        r = b""
        for s, o, n in self.segs:
            n = int(n)
            if s is ZERO:
                r += b"\0" * n
            elif s.kind == "lit":
                o = int(o)
                r += s.data[o : o + n]
            else:
                raise proxies.Limit(f"concrete bytes of {s}")
        return r

    def decode(self, *a, **kw):
        return self.to_bytes().decode(*a, **kw)

    def __bytes__(self):
        return self.to_bytes()

    def __buffer__(self, flags):
        reg = self.ctx.registry
        reg.append(self)
        return memoryview(b"\x01SYMB:%d;" % (len(reg) - 1))

    def __mul__(self, n):
        return repeat(self.ctx, self, n)

    __rmul__ = __mul__

    def count(self, b):
        if b in (0, b"\0") and all(
            s is ZERO or s.kind == "leaf" for s, _, _ in self.segs
        ):
            n = 0
            for s, _, m in self.segs:
                if s is ZERO:
                    n = n + m
            return n
        return self.to_bytes().count(b)

    def nonzero(self):
        """Is there a byte other than zero?"""
        if any(s.kind == "field" for s, _, _ in self.segs):
            raise proxies.Limit("bytes of a number")
        return any(
            s is not ZERO
            and (s.kind != "lit" or any(SymBytes(self.ctx, [x]).to_bytes()))
            for x in self.segs
            for s in x[:1]
        )

    def lstrip(self, chars=None):
        if chars == b"\0":
            segs = self.segs
            while segs and segs[0][0] is ZERO:
                segs = segs[1:]
            if not segs or segs[0][0].kind == "leaf":
                return SymBytes(self.ctx, segs)
        return self.to_bytes().lstrip(chars)

    def rstrip(self, chars=None):
        if chars == b"\0":
            segs = self.segs
            while segs and segs[-1][0] is ZERO:
                segs = segs[:-1]
            if not segs or segs[-1][0].kind == "leaf":
                return SymBytes(self.ctx, segs)
        return self.to_bytes().rstrip(chars)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def ljust(self, n, fill=b" "):
        if fill == b"\0":
            return self + zeroes(self.ctx, n - self._symlen())
        raise proxies.Limit("ljust")

    def __contains__(self, x):
        return x in self.to_bytes()

    def tobytes(self):
        return SymBytes(self.ctx, self.segs)

    def release(self):
        pass

    @property
    def nbytes(self):
        return self._symlen()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def startswith(self, p):
        return self.slice(0, len(p)) == p

    def __iter__(self):
        return iter(self.to_bytes())

    def __repr__(self):
        return f"<SymBytes {self.segs}>"

    def __format__(self, spec):
        return "<SymBytes>"

    def at(self, k):
        """(source id, index) of byte k as z3 integers; (-1, -1) outside."""
        k = zint(k)
        sid, off = z3.IntVal(-1), z3.IntVal(-1)
        start = z3.IntVal(0)
        parts = []
        for s, o, n in self.segs:
            end = start + zint(n)
            parts.append((start, end, s, o))
            start = end
        for start, end, s, o in reversed(parts):
            c = z3.And(k >= start, k < end)
            sid = z3.If(c, z3.IntVal(_src_uid(self.ctx, s)), sid)
            off = z3.If(
                c,
                z3.IntVal(0) if s is ZERO else zint(o) + k - start,
                off,
            )
        return sid, off


class SymByteArray(SymBytes):
    """A bytearray."""

    __hash__ = None

    def __init__(self, b):
        super().__init__(b.ctx, b.segs)

    def extend(self, o):
        self.segs = (SymBytes(self.ctx, self.segs) + o).segs

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, x):
        self.extend(bytes([x]))

    def __setitem__(self, i, data):
        assert isinstance(i, slice) and i.step in (None, 1)
        a, b, _ = i.indices(1 << 62) if not any(
            isinstance(x, SymInt) for x in (i.start, i.stop)
        ) and (i.start or 0) >= 0 and (i.stop is None or i.stop >= 0) else (
            i.start, i.stop, 1
        )
        if a is None:
            a = 0
        me = SymBytes(self.ctx, self.segs)
        if b is not None and b < a:
            b = a
        r = me.slice(0, a) + data
        if b is not None:
            r = r + me.slice(b)
        self.segs = r.segs

    def __delitem__(self, i):
        self[i] = b""

    def clear(self):
        self.segs = []


def int_from_bytes(b, byteorder, signed):
    if len(b.segs) == 1 and b.segs[0][0].kind == "field":
        s, o, n = b.segs[0]
        if byteorder == "little" and o == 0 and n == int(s.name[1:]):
            v = s.data
            if signed or v >= 0:
                return v
    return int.from_bytes(b.to_bytes(), byteorder, signed=signed)


def from_bytes(ctx, b):
    b = bytes(b)
    segs = []
    pos = 0
    for m in TOKEN.finditer(b):
        segs += _lit(ctx, b[pos : m.start()])
        segs += ctx.registry[int(m.group(1))].segs
        pos = m.end()
    segs += _lit(ctx, b[pos:])
    return SymBytes(ctx, segs)


def _lit(ctx, b):
    if not b:
        return []
    if b.count(0) == len(b):
        return [(ZERO, 0, len(b))]
    key = ("lit", b)
    if key not in ctx.memo:
        ctx.memo[key] = Src("lit", b[:16], b)
    return [(ctx.memo[key], 0, len(b))]


def rope(ctx, x):
    if isinstance(x, SymBytes):
        return x
    return from_bytes(ctx, x)


def repeat(ctx, x, n):
    x = rope(ctx, x)
    if all(s is ZERO for s, _, _ in x.segs):
        ln = x._symlen()
        total = n * ln if not isinstance(ln, SymInt) else ln * int(n)
        if not (total > 0):
            return SymBytes(ctx)
        return SymBytes(ctx, [(ZERO, 0, total)])
    r = SymBytes(ctx)
    for _ in range(int(n)):
        r = r + x
    return r


def zeroes(ctx, n):
    if not ctx.symbolic:
        return b"\0" * n
    if not (n > 0):
        return SymBytes(ctx)
    return SymBytes(ctx, [(ZERO, 0, n)])


def leaf(ctx, name, length):
    key = ("leaf", name)
    if key not in ctx.memo:
        ctx.memo[key] = Src("leaf", name)
    if isinstance(length, SymInt):
        if not (length > 0):
            return SymBytes(ctx)
    elif length <= 0:
        return SymBytes(ctx)
    return SymBytes(ctx, [(ctx.memo[key], 0, length)])


_NZ = bytes([1]) + bytes(range(1, 256))
_cache = {}


def concrete_leaf(value, name, length):
    key = (name, length)
    if key not in _cache:
        if len(_cache) > 8:
            _cache.clear()
        _cache[key] = random.Random(name).randbytes(length).translate(_NZ)
    return _cache[key]


def field(ctx, value, width, signed=False):
    """Little endian integer field of a binary stream."""
    if not isinstance(value, SymInt):
        return value.to_bytes(width, "little", signed=signed)
    return SymBytes(ctx, [(Src("field", f"i{width}", value), 0, width)])


def blob_eq(ctx, got, want):
    """Equality of two byte strings as one solver obligation: same length and
    the same byte at every index."""
    if not ctx.symbolic:
        return got == want
    got, want = rope(ctx, got), rope(ctx, want)
    k = z3.Int(ctx.fresh("K"))
    n = zint(got._symlen())
    a, b = got.at(k), want.at(k)
    return SymBool(
        ctx,
        z3.And(
            n == zint(want._symlen()),
            z3.Implies(
                z3.And(k >= 0, k < n), z3.And(a[0] == b[0], a[1] == b[1])
            ),
        ),
    )


# --- stand-ins for io.BytesIO, struct, lzo, mmh3, json, files ---------------


class SymBytesIO:
    _symio = True

    def __init__(self, initial=b"", ctx=None):
        from .env import _CTX

        self.ctx = ctx or _CTX[0]
        self.content = rope(self.ctx, initial)
        self.pos = 0
        self.closed = False

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self.pos + off
        else:
            self.pos = self.content._symlen() + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            r = self.content.slice(self.pos)
        elif isinstance(n, SymInt) and n < 0:
            r = self.content.slice(self.pos)
        else:
            r = self.content.slice(self.pos, self.pos + n)
        self.pos = self.pos + r._symlen()
        return r

    def write(self, data):
        data = rope(self.ctx, data)
        n = data._symlen()
        if not data:
            return n
        size = self.content._symlen()
        c = self.content
        if _same(self.pos, size):
            self.content = c + data
        else:
            if self.pos > size:
                c = c + zeroes(self.ctx, self.pos - size)
            self.content = (
                c.slice(0, self.pos) + data + c.slice(self.pos + n)
            )
        self.pos = self.pos + n
        return n

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        cur = self.content._symlen()
        if size < cur:
            self.content = self.content.slice(0, size)
        return size

    def getvalue(self):
        return self.content

    def getbuffer(self):
        return self.content

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise proxies.Limit("iterating a file")


class SymFile(SymBytesIO):
    """A plain file (restore target, block device, stream)."""

    def __init__(self, ctx, content=b"", name="<file>"):
        super().__init__(content, ctx)
        self.name = name

    def fileno(self):
        raise OSError("no file descriptor")

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        cur = self.content._symlen()
        if size > cur:
            self.content = self.content + zeroes(self.ctx, size - cur)
            return size
        return super().truncate(size)

    def isatty(self):
        return False


class VFile(SymFile):
    """Handle on a data file of the environment."""

    def __init__(self, ctx, holder, name, mode):
        self.holder = holder
        self.ctx = ctx
        self.name = name
        self.mode = mode
        self.pos = 0
        self.closed = False
        self.fresh = False
        if "w" in mode:
            self.content = SymBytes(ctx)

    @property
    def content(self):
        return self.holder[0]

    @content.setter
    def content(self, v):
        self.holder[0] = v

    def read(self, n=-1):
        assert "r" in self.mode or "+" in self.mode
        return super().read(n)

    def write(self, data):
        if self.mode in ("rb", "br"):
            raise real_io.UnsupportedOperation("write")
        if "a" in self.mode:
            self.pos = self.content._symlen()
        return super().write(data)


class _Shim:
    def __init__(self, real, **over):
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


def io_shim():
    return _Shim(real_io, BytesIO=SymBytesIO)


def struct_shim():
    def unpack(fmt, b):
        if not isinstance(b, SymBytes):
            return real_struct.unpack(fmt, b)
        if all(s.kind in ("lit", "zero") for s, _, _ in b.segs):
            return real_struct.unpack(fmt, b.to_bytes())
        size = real_struct.calcsize(fmt)
        if b._symlen() != size:
            raise real_struct.error(
                f"unpack requires a buffer of {size} bytes"
            )
        if fmt[0] not in "<":
            raise proxies.Limit("struct " + fmt)
        res = []
        pos = 0
        for ch in fmt[1:]:
            w = real_struct.calcsize("<" + ch)
            part = b.slice(pos, pos + w)
            pos += w
            if len(part.segs) == 1 and part.segs[0][0].kind == "field":
                s, o, n = part.segs[0]
                if o == 0 and n == w == int(s.name[1:]):
                    res.append(s.data)
                    continue
            res.append(real_struct.unpack("<" + ch, part.to_bytes())[0])
        return tuple(res)

    def unpack_from(fmt, b, offset=0):
        if not isinstance(b, SymBytes):
            return real_struct.unpack_from(fmt, b, offset)
        size = real_struct.calcsize(fmt)
        return unpack(fmt, b.slice(offset, offset + size))

    def iter_unpack(fmt, b):
        size = real_struct.calcsize(fmt)
        while b:
            yield unpack(fmt, b[:size])
            b = b[size:]

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = real_struct.calcsize(fmt)

        def unpack(self, b):
            return unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return unpack_from(self.format, b, offset)

        def iter_unpack(self, b):
            return iter_unpack(self.format, b)

        def pack(self, *a):
            return real_struct.pack(self.format, *a)

    return _Shim(
        real_struct, unpack=unpack, unpack_from=unpack_from,
        iter_unpack=iter_unpack, Struct=Struct,
    )


def json_shim():
    import json as real_json

    def enc(o, ctxreg):
        if isinstance(o, dict):
            return {
                (int(k) if isinstance(k, SymInt) else k): enc(v, ctxreg)
                for k, v in o.items()
            }
        if isinstance(o, (list, tuple)):
            return [enc(v, ctxreg) for v in o]
        if isinstance(o, (proxies._Sym, proxies.SymStr)):
            reg = o.ctx.registry
            reg.append(o)
            return {"!sym": len(reg) - 1}
        return o

    def hook(d):
        from .env import _CTX

        if set(d) == {"!sym"}:
            return _CTX[0].registry[d["!sym"]]
        return d

    def dump(obj, fp, **kw):
        return real_json.dump(enc(obj, None), fp, **kw)

    def dumps(obj, **kw):
        return real_json.dumps(enc(obj, None), **kw)

    def load(fp, **kw):
        return real_json.load(fp, object_hook=hook, **kw)

    def loads(s, **kw):
        return real_json.loads(s, object_hook=hook, **kw)

    return _Shim(real_json, dump=dump, dumps=dumps, load=load, loads=loads)


def install(env):
    """Chunk store libraries for one symbolic path."""
    from .env import backy_modules
    import json

    import lzo
    import mmh3

    ctx = env.ctx
    table = []

    def intern(data, seed=0, *a, **kw):
        data = rope(ctx, data)
        for i, c in enumerate(table):
            if c.eq(data):
                break
        else:
            i = len(table)
            table.append(data)
        return hashlib.md5(f"mmh3:{i}".encode()).digest()

    def compress(data, *a, **kw):
        data = rope(ctx, data)
        return SymBytes(ctx, [(Src("lzo", "lzo", data), 0, 11)])

    def decompress(data, *a, **kw):
        data = rope(ctx, data)
        if (
            len(data.segs) == 1
            and data.segs[0][0].kind == "lzo"
            and data.segs[0][2] == 11
        ):
            return data.segs[0][0].data
        raise lzo.error("Compressed data violation")

    p = env.p
    for mod, name, f in (
        (mmh3, "hash_bytes", intern),
        (lzo, "compress", compress),
        (lzo, "decompress", decompress),
    ):
        old = getattr(mod, name)
        p.setattr(mod, name, f)
        p.replace(old, f)
    p.replace(real_io, io_shim())
    shim = struct_shim()
    p.replace(real_struct, shim)
    for n in ("unpack", "unpack_from", "iter_unpack", "Struct"):
        p.replace(getattr(real_struct, n), getattr(shim, n))
    # made when the module was imported
    for m in backy_modules():
        for k, v in list(m.__dict__.items()):
            if isinstance(v, real_struct.Struct):
                p.setattr(m, k, shim.Struct(v.format))
    p.replace(json, json_shim())
    p.replace(real_io.BytesIO, SymBytesIO)
