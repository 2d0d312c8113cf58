"""Encoders of Linux MD superblocks, written from md_p.h."""

from __future__ import annotations

import struct

MAGIC = 0xA92B4EFC
SPARE, FAULTY, JOURNAL = 0xFFFF, 0xFFFE, 0xFFFD
RECOVERING = 2  # feature bit: valid up to recovery_offset only
FEATURES = (0, 0, 1, 8, 9, 16, 256, 512, 1024)  # bits without influence on where data is
FAULTY_BIT, ACTIVE_BIT, SYNC_BIT = 1, 2, 4


def sb1(f: dict) -> bytes:
    """1.x superblock; every field that is not given is filled with an unrelated value."""
    out = struct.pack("<IIII", f.get("magic", MAGIC), 1, f.get("feature_map", 0), 0)
    out += struct.pack("<16s32sQiIQII", f["set_uuid"], f["name"], f["ctime"], f["level"], f["layout"], f["size"], f["chunk"], f["raid_disks"])
    out += struct.pack("<IIQIIII", 0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666, 0x7777)
    assert len(out) == 128
    out += struct.pack("<QQQQII16sBBHi", f["data_offset"], f["data_size"], f["super_offset"], f.get("recovery_offset", 0x8888), f["dev_number"], 0x9999, f["dev_uuid"], 0, 9, 8, 72)
    assert len(out) == 192
    out += struct.pack("<QQQII32s", f["utime"], f["events"], 0xFFFFFFFFFFFFFFFF, 0xCCCC, len(f["roles"]), b"")
    assert len(out) == 256
    return out + struct.pack(f"<{len(f['roles'])}H", *f["roles"])


def disk0(number: int, raid_disk: int, state: int) -> bytes:
    return struct.pack("<5I", number, 8, 16 * number, raid_disk, state).ljust(128, b"\x00")


def sb0(f: dict) -> bytes:
    """0.90 superblock (little endian hosts)."""
    u = f["set_uuid"]
    out = struct.pack("<5I4s", f.get("magic", MAGIC), 0, 90, 3, 0, u[0:4])
    out += struct.pack("<IiIIIII4s4s4s", f["ctime"], f["level"], f["size"], 0x77, f["raid_disks"], 0x11, 0, u[4:8], u[8:12], u[12:16])
    out = out.ljust(128, b"\x00")
    ev = f["events"]
    out += struct.pack("<12I", f["utime"], 1, 2, 3, 4, 5, 0xAAAA, ev & 0xFFFFFFFF, ev >> 32, 0xBBBB, 0xCCCC, 0xDDDD)
    out += struct.pack("<QIIII", 0x12345, 0x66, 0x77, 0x88, 0x99)
    out = out.ljust(256, b"\x00")
    out += struct.pack("<IIII", f["layout"], f["chunk"], 0xEEEE, 0xFFFF).ljust(256, b"\x00")
    disks = list(f["disks"]) + [(i, 0, 0) for i in range(len(f["disks"]), 27)]
    out += b"".join(disk0(*d) for d in disks)
    out = out.ljust(4096 - 128, b"\x00")
    out += disk0(*f["this_disk"])
    assert len(out) == 4096
    return out


def place(ver: str, size: int) -> int:
    """Sector of the superblock on a device of ``size`` sectors (Md.tla is the reference; used to build members)."""
    return {"0.90": (size & ~127) - 128, "1.0": (size - 16) & ~7, "1.1": 0, "1.2": 8}[ver]
