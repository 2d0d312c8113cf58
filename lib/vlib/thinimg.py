"""Thin-pool metadata devices, encoded independently of the code under test."""

from __future__ import annotations

import random
import struct

from vlib.blob import Blob

MAGIC = 27022010
INTERNAL, LEAF = 1, 2


class Meta:
    """Allocates blocks for B-tree nodes; ``finish`` writes the superblock."""

    def __init__(self, rng: random.Random, sectors: int = 8):
        self.rng = rng
        self.sectors = sectors
        self.size = sectors * 512
        self.next = 1
        self.nodes: dict[int, bytes] = {}

    def node(self, leaf: bool, keys: list[int], values: list[bytes], value_size: int) -> int:
        rng = self.rng
        top = (self.size - 32) // (8 + value_size)
        if len(keys) > top:
            raise ValueError("too many entries for a node")
        room = max(len(keys), rng.choice([top, top // 3 * 3, len(keys)]))
        self.next += rng.choice([0, 0, 0, 1, 3])
        block = self.next
        self.next += 1
        buf = struct.pack("<IIQIIII", rng.getrandbits(32), LEAF if leaf else INTERNAL, block, len(keys), room, value_size, rng.getrandbits(32))
        buf += struct.pack(f"<{len(keys)}Q", *keys)
        # unused entries keep old contents
        buf += rng.randbytes(8 * (room - len(keys)))
        buf += b"".join(values)
        buf += rng.randbytes(value_size * (room - len(keys)))
        self.nodes[block] = buf
        return block

    def emitted(self, tree: dict, scale, value, value_size: int) -> int:
        """A tree as emitted by Thin.tla; keys go through ``scale``, the values are ``value(key)``."""
        keys = [scale(k) for k in tree["keys"]]
        if tree["leaf"]:
            return self.node(True, keys, [value(k) for k in tree["keys"]], value_size)
        kids = list(tree["kids"])
        blocks = {}
        for i in self.rng.sample(range(len(kids)), len(kids)):
            blocks[i] = self.emitted(kids[i], scale, value, value_size)
        return self.node(False, keys, [struct.pack("<Q", blocks[i]) for i in range(len(kids))], 8)

    def build(self, entries: dict[int, bytes], value_size: int) -> int:
        """A tree of random shape."""
        rng = self.rng
        keys = sorted(entries)
        fan = rng.choice([1, 2, 3, 7, 200])
        level = []
        i = 0
        while i < len(keys) or not level:
            n = rng.randint(1, fan)
            part = keys[i : i + n]
            low = part[0] if part else 0
            level.append((low, self.node(True, part, [entries[k] for k in part], value_size)))
            i += max(n, 1)
        fan = max(2, fan)
        while len(level) > 1:
            up = []
            i = 0
            while i < len(level):
                n = rng.randint(2, fan)
                part = level[i : i + n]
                up.append((part[0][0], self.node(False, [k for k, _ in part], [struct.pack("<Q", b) for _, b in part], 8)))
                i += n
            level = up
        return level[0][1]

    def finish(self, mapping: int, details: int, data_sectors: int, expose_size: bool = False) -> Blob:
        rng = self.rng
        blob = Blob(self.next * self.size + rng.choice([0, 512, 5 * self.size]), f"meta{rng.getrandbits(32)}", expose_size)
        sb = struct.pack("<IIQ16sQIIQQ", rng.getrandbits(32), rng.choice([0, 1]), 0, rng.randbytes(16), MAGIC, 2, rng.getrandbits(31), rng.getrandbits(40), rng.choice([0, 5]))
        sb += rng.randbytes(256) + struct.pack("<QQIIQIII", mapping, details, data_sectors, self.sectors, self.next, 0, 0, 0)
        blob.put(0, sb)
        for block, buf in self.nodes.items():
            blob.put(block * self.size, buf)
        return blob


def details(rng: random.Random) -> bytes:
    return struct.pack("<QQII", rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(32), rng.getrandbits(32))


def block_time(rng: random.Random, block: int) -> bytes:
    return struct.pack("<Q", block << 24 | rng.getrandbits(24))
