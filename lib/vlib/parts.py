"""Encoders of partition tables, written from the format descriptions."""

from __future__ import annotations

import struct
import uuid

BSD_MAGIC = 0x82564557
BSD64_MAGIC = 0xC4464C59


def big(limbs: list[int]) -> int:
    return sum(v << (16 * i) for i, v in enumerate(limbs))


def limbs(n: int) -> list[int]:
    return [(n >> (16 * i)) & 0xFFFF for i in range(6)]


def mbr_sector(entries: list[dict], serial: int = 0, boot: bytes = b"", sig: bytes = b"\x55\xaa") -> bytes:
    """``entries`` are the four slots: t, ofs, sz, fl (integers)."""
    out = boot.ljust(0x1B8, b"\x00") + struct.pack("<IH", serial, 0)
    for e in entries:
        out += struct.pack("<B3sB3sII", e.get("fl", 0), b"\xfe\xff\xff", e["t"], b"\xfe\xfe\xff", e["ofs"], e["sz"])
    return out + sig


def gpt_header(table_lba: int, count: int, entry_size: int, guid: bytes = b"G" * 16) -> bytes:
    head = struct.pack(
        "<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, 0x11223344, 0, 1, 0x9999, 34, 0x8888, guid, table_lba, count,
        entry_size, 0x55667788,
    )  # fmt: skip
    return head.ljust(512, b"\x00")


def gpt_entry(type_guid: uuid.UUID, guid: uuid.UUID, first: int, last: int, flags: int, units: list[int]) -> bytes:
    name = struct.pack(f"<{len(units)}H", *units)
    return struct.pack("<16s16sQQQ72s", type_guid.bytes_le, guid.bytes_le, first, last, flags, name)


def apm_driver(bs: int, blocks: int = 0x10000) -> bytes:
    return struct.pack(">2sHIHHIH", b"ER", bs, blocks, 1, 1, 0, 0).ljust(512, b"\x00")


def apm_entry(count: int, start: int, size: int, name: bytes, type: bytes) -> bytes:
    head = struct.pack(">2sHIII32s32sII", b"PM", 0, count, start, size, name, type, 1, max(0, size - 2))
    return head + struct.pack(">7I16s", 0x33, 7, 4096, 0x9000, 0, 0x9100, 0, b"68000").ljust(512 - len(head), b"\x00")


def bsd32(slots: list[dict], count: int | None = None, magic: int = BSD_MAGIC, magic2: int = BSD_MAGIC, ss: int = 512) -> bytes:
    head = struct.pack("<IHH16s16s6I", magic, 4, 0, b"unknown", b"fictitious", ss, 63, 255, 100, 16065, 1606500)
    head += struct.pack("<HHIHHHHIII", 0, 0, 0, 3600, 1, 0, 0, 0, 0, 0) + b"\x00" * 20 + b"\x00" * 20
    head += struct.pack("<IHHII", magic2, 0xBEEF, len(slots) if count is None else count, 8192, 8192)
    for s in slots:
        head += struct.pack("<IIIBBH", s["sz"], s["off"], 2048, s["fs"], 8, 0)
    return head


def bsd64(slots: list[dict], magic: int = BSD64_MAGIC) -> bytes:
    head = struct.pack("<IIII16sQQQQQ64s64s", magic, 0x1234, 1 << 20, len(slots), b"U" * 16, 1 << 40, 0x1000, 0x4000,
                       1 << 40, 0, b"pack", b"")  # fmt: skip
    for i, s in enumerate(slots):
        head += struct.pack("<QQB3sIII16s16s", s["off"], s["sz"], s["fs"], b"", 0, 0, 0, b"T" * 16, bsd64_guid(i + 1).bytes_le)
    return head


def bsd64_guid(number: int) -> uuid.UUID:
    return uuid.UUID(int=0x1234567890ABCDEF0000000000000000 + number)
