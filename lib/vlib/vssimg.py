"""Volumes with shadow copies, encoded independently of the code under test."""

from __future__ import annotations

import random
import struct

from vlib.blob import Blob

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
BLOCK = 0x4000


class Volume:
    def __init__(self, rng: random.Random, blocks: int, size: int, keep: set[int]):
        """``keep``: blocks whose contents belong to the volume, not to the stores."""
        self.rng = rng
        self.blocks = blocks
        self.size = size
        self.blob = Blob(size + rng.choice([0, 512, BLOCK]), f"vss{rng.getrandbits(48)}", rng.random() < 0.3)
        self.taken = {0, *keep}

    def block(self) -> int:
        """A free block for the structures and data of stores."""
        last = self.size // BLOCK - 1
        while True:
            b = self.rng.randint(1, last)
            if b not in self.taken:
                self.taken.add(b)
                return b

    def chain(self, kind: int, data: bytes) -> int:
        """Blocks of a record type with a header each; returns the first offset."""
        parts = [data[i : i + BLOCK - 128] for i in range(0, len(data), BLOCK - 128)] or [b""]
        if self.rng.random() < 0.2:
            parts.append(b"")
        offs = [self.block() * BLOCK for _ in parts]
        for i, part in enumerate(parts):
            nxt = offs[i + 1] if i + 1 < len(offs) else 0
            hdr = ID + struct.pack("<IIQQQ", 1, kind, i * BLOCK, offs[i], nxt)
            hdr += struct.pack("<Q", len(data) if kind != 2 else 0) + self.rng.randbytes(128 - len(hdr) - 8)
            self.blob.put(offs[i], hdr + part + bytes(BLOCK - 128 - len(part)))
        return offs[0]

    def store_header(self, copy_id: bytes, set_id: bytes, machine: str, service: str) -> int:
        rng = self.rng
        off = self.block() * BLOCK
        hdr = ID + struct.pack("<IIQQQQ", 1, 4, 0, off, 0, 0)
        hdr += rng.randbytes(128 - len(hdr))
        info = rng.randbytes(16) + copy_id + set_id + struct.pack("<IIII", 9, 1, 0x420009, 0)
        for s in (machine, service):
            b = s.encode("utf-16-le")
            info += struct.pack("<H", len(b)) + b
        self.blob.put(off, (hdr + info).ljust(BLOCK, b"\x00"))
        return off

    def bitmap(self, zero: set[int]) -> int:
        """Bits of all blocks are set, except of those in ``zero``."""
        n = -(-self.blocks // 8)
        bits = bytearray(b"\xff" * n)
        for b in zero:
            bits[b // 8] &= ~(1 << (b % 8)) & 0xFF
        return self.chain(6, bytes(bits))

    def descriptor(self, original: int, relative: int, store: int, flags: int, bitmap: int) -> bytes:
        return struct.pack("<QQQII", original, relative, store, flags, bitmap)

    def header(self, catalog: int, volume_id: bytes, store_id: bytes) -> None:
        rng = self.rng
        hdr = ID + struct.pack("<IIQQQQQ", 1, 1, 0x1E00, rng.getrandbits(40), rng.getrandbits(40), catalog, rng.getrandbits(40))
        hdr += volume_id + store_id + struct.pack("<I", rng.getrandbits(31))
        self.blob.put(0x1E00, hdr + bytes(512 - len(hdr)))
