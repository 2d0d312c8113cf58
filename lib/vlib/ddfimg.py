"""Encoders of SNIA DDF structures (big endian), written from the DDF 2.0 specification."""

from __future__ import annotations

import struct

ALL = 0xFFFFFFFFFFFFFFFF


def crc() -> bytes:
    return b"\xc0\xc1\xc2\xc3"


def header(f: dict, kind: int) -> bytes:
    out = struct.pack(">I4s24s8sIIBBB13s32s", f.get("sig", 0xDE11DE11), crc(), f["guid"], b"02.00.00", f["seq"], 0x11223344, 0xFF, 0, 0, b"\xff" * 13, b"\xff" * 32)
    assert len(out) == 96
    out += struct.pack(">QQB3sIQ", f["primary"], f["secondary"], kind, b"\xff" * 3, 32 * 1024, f["workspace"])
    out += struct.pack(">HHHHHI50s", 1023, 256, 64, f["rec_len"], f["mppe"], 0xFFFF, b"\xff" * 50)
    assert len(out) == 192
    for name in ("controller", "pdr", "vdr", "conf", "pdd", "bbm", "diag", "logs"):
        out += struct.pack(">II", *f[name])
    assert len(out) == 256
    return out + b"\xff" * 256


def controller(guid: bytes, sig: int = 0xAD111111, type_: bytes = b"\x12\x34\x56\x78\x9a\xbc\xde\xf0") -> bytes:
    return struct.pack(">I4s24s8s16s8s448s", sig, crc(), guid, type_, b"product", b"\xff" * 8, b"")


def pde(guid: bytes, ref: int, type_: int, state: int, size: int, bs: int, path: bytes = b"path") -> bytes:
    return struct.pack(">24sIHHQ18sH4s", guid, ref, type_, state, size, path, bs, b"\xff" * 4)


def table(sig: int, populated: int, maximum: int, entries: list[bytes]) -> bytes:
    return struct.pack(">I4sHH52s", sig, crc(), populated, maximum, b"\xff" * 52) + b"".join(entries)


def vde(guid: bytes, number: int, type_: int, state: int, init: int, name: bytes) -> bytes:
    return struct.pack(">24sH2sIBBB13s16s", guid, number, b"\xff\xff", type_, state, init, 0, b"\xff" * 13, name)


def vdcr(f: dict, mppe: int, length: int) -> bytes:
    out = struct.pack(">I4s24sII24s", 0xEEEEEEEE, crc(), f["guid"], f["time"], f["seq"], b"\xff" * 24)
    out += struct.pack(">HBBBBBBQQHB5s", f["pec"], f["strip"], f["prl"], f["rlq"], f["nsec"], f["sec"], f["srl"], f["blocks"], f["size"], f["bs"], f.get("rotate", 1), b"\xff" * 5)
    out += b"\xff" * 32 + b"\x00" * 8 + b"\x80"
    out = out.ljust(512, b"\xfe")
    refs = f["refs"] + [0xFFFFFFFF] * (mppe - len(f["refs"]))
    starts = f["starts"] + [ALL] * (mppe - len(f["starts"]))
    out += struct.pack(f">{mppe}I", *refs) + struct.pack(f">{mppe}Q", *starts)
    assert len(out) <= length
    return out.ljust(length, b"\xff")


def pdd(guid: bytes, ref: int) -> bytes:
    return struct.pack(">I4s24sIBB32s442s", 0x33333333, crc(), guid, ref, 0, 0, b"scratch", b"\xff" * 442)
