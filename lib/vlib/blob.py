"""File-like objects for synthesized devices.  Sparse, so terabyte devices cost nothing."""

from __future__ import annotations

import io
import random

PAGE = 4096


class Blob(io.RawIOBase):
    """A read-only (for the code under test) sparse device; unwritten bytes read as ``fill``."""

    def __init__(self, size: int, fill: int | str = 0, expose_size: bool = False):
        """A string ``fill`` gives unwritten pages contents of their own, so every address is recognisable."""
        super().__init__()
        self.length = size
        self.fill = fill
        self.pages: dict[int, bytearray] = {}
        self.cache: dict[int, bytes] = {}
        self.pos = 0
        self.base = bytes([fill]) * PAGE if isinstance(fill, int) else None
        if expose_size:
            self.size = size

    def blank(self, pg: int) -> bytes:
        if self.base is not None:
            return self.base
        page = self.cache.get(pg)
        if page is None:
            if len(self.cache) > 1000:
                self.cache.clear()
            page = self.cache[pg] = noise((self.fill, pg), PAGE)
        return page

    # -- construction ------------------------------------------------------------------------------------------------
    def put(self, off: int, data: bytes) -> None:
        if off < 0 or off + len(data) > self.length:
            raise ValueError(f"put outside device: {off}+{len(data)} > {self.length}")
        mv = memoryview(data)
        while mv:
            pg, o = divmod(off, PAGE)
            n = min(PAGE - o, len(mv))
            page = self.pages.get(pg)
            if page is None:
                page = self.pages[pg] = bytearray(self.blank(pg))
            page[o : o + n] = mv[:n]
            mv = mv[n:]
            off += n

    def peek_at(self, off: int, n: int) -> bytes:
        n = max(0, min(n, self.length - off))
        if n == 0:
            return b""
        if not self.pages and self.base is not None:
            return bytes([self.fill]) * n
        out = []
        while n:
            pg, o = divmod(off, PAGE)
            k = min(PAGE - o, n)
            page = self.pages.get(pg)
            out.append(bytes((page if page is not None else self.blank(pg))[o : o + k]))
            off += k
            n -= k
        return b"".join(out)

    def clone(self, expose_size: bool | None = None) -> Blob:
        """An independent handle on the same content."""
        b = Blob(self.length, self.fill, hasattr(self, "size") if expose_size is None else expose_size)
        b.pages = self.pages
        return b

    # -- file interface ----------------------------------------------------------------------------------------------
    def readable(self) -> bool:
        return True

    def seekable(self) -> bool:
        return True

    def seek(self, pos: int, whence: int = 0) -> int:
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += self.length
        if pos < 0:
            raise ValueError(f"negative seek value {pos}")
        self.pos = pos
        return pos

    def tell(self) -> int:
        return self.pos

    def read(self, n: int = -1) -> bytes:
        avail = max(0, self.length - self.pos)
        if n is None or n < 0:
            n = avail
        n = min(n, avail)
        data = self.peek_at(self.pos, n)
        self.pos += len(data)
        return data

    def readinto(self, b) -> int:
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)


def noise(key, n: int) -> bytes:
    """Deterministic content for a key."""
    return random.Random(repr(key)).randbytes(n)
