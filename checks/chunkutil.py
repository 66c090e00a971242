"""Shared pieces of the chunk-level harnesses."""

import io
import json
import os

from sx.env import LOG
from sx.symbytes import SymFile, blob_eq, rope, zeroes

CS = 4 * 1024 * 1024

chunk_assumptions = [
    "file contents are generic byte strings (parametricity): two bytes are "
    "equal iff they are the same byte of the same blob or both zero; repeated "
    "blobs and zeroes are explicit cases",
    "lzo.decompress inverts lzo.compress and rejects everything else; mmh3 "
    "has no collisions on the contents of one run",
]


def mk_store(env, path=None):
    import backy.rbd.chunked

    return backy.rbd.chunked.Store(path or env.tmp / "chunks", LOG)


def open_image(path, store, mode="rw"):
    import backy.rbd.chunked

    return backy.rbd.chunked.File(path, store, mode)


class Model:
    """A sparse-less byte file: the oracle."""

    def __init__(self, ctx, content=b""):
        self.ctx = ctx
        self.f = SymFile(ctx, content) if ctx.symbolic else io.BytesIO(content)

    def size(self):
        return (
            self.f.content._symlen()
            if self.ctx.symbolic
            else len(self.f.getvalue())
        )

    def content(self):
        return self.f.content if self.ctx.symbolic else self.f.getvalue()

    def seek(self, pos):
        """Seeking past the end extends with zeroes."""
        size = self.size()
        if pos > size:
            self.f.seek(size)
            self.f.write(zeroes(self.ctx, pos - size))
        self.f.seek(pos)

    def write(self, data):
        self.f.write(data)

    def read(self, n=-1):
        return self.f.read(n)

    def tell(self):
        return self.f.tell()

    def truncate(self):
        self.f.truncate()


def store_files(env, path=None):
    """Hashes in the store directory."""
    root = str(path or env.tmp / "chunks")
    res = {}
    for d, _, files in os.walk(root):
        for n in files:
            if n != "store":
                res[n.split(".")[0]] = os.path.join(d, n)
    return res


def mapping(path):
    with open(path) as f:
        return {int(k): v for k, v in json.load(f)["mapping"].items()}


def stored(ctx, path):
    """Decompressed content of a stored chunk file; None if it is damaged
    beyond decompression or missing."""
    import lzo

    try:
        with open(path, "rb") as f:
            return lzo.decompress(f.read())
    except (lzo.error, OSError):
        return None


def hash_of(content):
    import binascii

    import mmh3

    return binascii.hexlify(mmh3.hash_bytes(content)).decode("ascii")


DAMAGES = ["missing", "garbage", "other", "short", "long", "empty", "torn"]


def damage(ctx, path, kind, other):
    """Damage a stored chunk file."""
    import lzo

    if kind in ("short", "long", "torn"):
        raw = open(path, "rb").read()
        good = lzo.decompress(raw)
    os.unlink(path)
    if kind == "missing":
        return
    if kind == "garbage":
        data = b"this is not a compressed chunk"
    elif kind == "empty":
        data = b""
    elif kind == "other":
        data = lzo.compress(other)
    elif kind == "short":
        data = lzo.compress(good[: size_(good) - 1])
    elif kind == "long":
        data = lzo.compress(good + b"\0")
    elif kind == "torn":
        data = rope(ctx, raw).slice(0, 7) if ctx.symbolic else raw[:7]
    with open(path, "wb") as f:
        f.write(data)


def size_(x):
    return x._symlen() if hasattr(x, "_symlen") else len(x)
