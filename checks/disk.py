"""D01-D05: partition tables emitted by Mbr/Gpt/Apm/Bsd/Detect.tla, laid out on disks and listed by the real Disk."""

from __future__ import annotations

import random
import uuid

from vlib import tlc
from vlib.blob import Blob, noise
from vlib.harness import Check, deviation, expect, expect_bytes, expect_eq, outcome
from vlib.parts import (
    apm_driver, apm_entry, big, bsd32, bsd64, bsd64_guid, gpt_entry, gpt_header, limbs, mbr_sector,
)  # fmt: skip

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR
from dissect.volume.exceptions import DiskError

HUGE = 1 << 62
EXT = (0x05, 0x0F, 0x85)
BSD_TYPES = (0xA5, 0xA6, 0xA9, 0x6C)
PLAIN = [t for t in range(1, 256) if t not in EXT and t not in BSD_TYPES and t != 0xEE]
BSD_GUIDS = [
    uuid.UUID("9D087404-1CA5-11DC-8817-01301BB8A9F5"),
    uuid.UUID("3D48CE54-1D16-11DC-8696-01301BB8A9F5"),
    uuid.UUID("516E7CB4-6ECF-11D6-8FF8-00022D09712B"),
]
NIL = uuid.UUID(int=0)


def device(seed: str) -> Blob:
    return Blob(HUGE, seed)


def check_handle(p, blob: Blob, at: int, size: int, what: str) -> None:
    """Contents at the start, in the middle and at the end of an opened partition."""
    fh = p.open()
    for pos in sorted({0, min(1000, size // 2), max(0, size - 300)}):
        fh.seek(pos)
        n = min(300, size - pos)
        expect_bytes(fh.read(300) if size - pos <= 300 else fh.read(n), blob.peek_at(at + pos, n), "partition contents", f"{what} pos={pos} size={size}")


def open_disk(rng: random.Random, blob: Blob, ss: int, cls: type | None = None):
    """The disk at the position of the handle; 512 byte sectors need not be given. ``cls`` is opened directly as well."""
    default = ss == 512 and rng.random() < 0.5
    start = blob.tell()
    disk = Disk(blob) if default else Disk(blob, sector_size=ss)
    expect_eq((disk.fh is blob, disk.sector_size), (True, ss), "handle and sector size of the disk", f"start={start}")
    if cls is not None:
        blob.seek(start)
        scheme = cls(blob) if default else cls(blob, sector_size=ss)
        listed = [[(p.number, p.offset, p.size, p.type, p.name, p.flags, p.guid) for p in x.partitions] for x in (scheme, disk)]
        expect_eq(listed[0], listed[1], "partitions of the scheme itself", f"{cls.__name__} ss={ss} start={start}")
    return disk


def place_of(rng: random.Random) -> int:
    """Where the disk starts in the file: usually at the beginning."""
    return 0 if rng.random() < 0.7 else 512 * rng.choice([1, 8, rng.randint(1, 1 << 30)])


def boot_code(rng: random.Random, seed) -> bytearray:
    """Boot loaders: the names of filesystems and of QNX may appear, but not where boot sectors of filesystems have them."""
    boot = bytearray(rng.choice([noise(seed, 0x1B8), b"\x00" * 0x1B8, b"\x90" * 0x1B8]))
    boot[0:11] = b"\xeb\x58\x90" + rng.choice([b"GRUB    ", b"\x00" * 8, b"LILO ab ", b"MSDO5.0 ", b"NTF S   "])
    boot[11:38] = b"\x90" * 27
    boot[160:180] = b"\x90" * 20
    name = rng.choice([b"NTFS", b"FAT", b"MSDOS", b"MSWIN", b"EXFAT", b"-FVE-FS-", b"SYSLINUX"])
    kind = rng.randrange(6)
    if kind == 1:
        boot[11 : 11 + len(name)] = name
    elif kind == 2:
        boot[12 - len(name) : 12] = name
    elif kind == 3:
        at = rng.choice([17, 19])
        boot[at : at + 20] = b"Hit Esc for .altboot"
    elif kind == 4:
        at = rng.choice([167, 169])
        boot[at : at + 6] = b"\r\nQNX "
    elif kind == 5:
        boot[2:6] = rng.choice([b"NTFS", b"FAT1"])
    return boot


# -- D01 -----------------------------------------------------------------------------------------------------------------
def mbr_scenarios(rng: random.Random, count: int) -> list:
    out = []
    for i in range(count):
        wide = rng.random() < 0.5
        top = 0xFFFFFFFF if wide else 100000
        nodes: list[list] = [[]]
        budget = rng.randint(0, 9)
        queue = [0]
        while queue:
            n = queue.pop(0)
            node = []
            for s in range(4):
                k = rng.random()
                if k < (0.35 if n == 0 else 0.5):
                    node.append({"t": 0, "ofs": [0], "sz": [0], "fl": 0, "to": 0})
                elif k < 0.7 or budget == 0:
                    node.append({"t": rng.choice(PLAIN), "ofs": limbs(rng.choice([*[rng.randint(1, top)] * 2, 0, 1, top])),
                                 "sz": limbs(rng.choice([*[rng.randint(1, top)] * 2, 0, 1, top])), "fl": rng.choice([0, 0x80, rng.randint(0, 255)]), "to": 0})
                else:
                    budget -= 1
                    nodes.append([])
                    queue.append(len(nodes) - 1)
                    node.append({"t": rng.choice(EXT), "ofs": limbs(rng.randint(1, top)), "sz": limbs(rng.randint(1, top)),
                                 "fl": rng.choice([0, 0x80]), "to": len(nodes)})
            nodes[n] = node
        out.append({"id": f"r{i}", "nodes": nodes})
    return out


def replay_mbr(case: dict) -> None:
    rng = random.Random(case["phys"])
    ss = case["ss"]
    start = case["start"]
    blob = device(case["phys"])
    locs = [big(x) for x in case["locs"]]
    serial = rng.getrandbits(32)
    for n, node in enumerate(case["nodes"]):
        entries = [{"t": e["t"], "ofs": big(e["ofs"]), "sz": big(e["sz"]), "fl": e["fl"]} for e in node]
        boot = noise((case["phys"], n), 0x1B8) if n else bytes(boot_code(rng, case["phys"]))
        blob.put(start + locs[n] * ss, mbr_sector(entries, serial if n == 0 else rng.getrandbits(32), boot))
    blob.seek(start)
    ctx = f"ss={ss} start={start}"
    disk = open_disk(rng, blob, ss, MBR)
    expect(isinstance(disk.scheme, MBR), "scheme is MBR", ctx)
    expect_eq(disk.serial, serial, "serial", ctx)
    got = [(p.number, p.offset, p.size, p.type, p.flags) for p in disk.partitions]
    want = [(p["number"], start + big(p["lba"]) * ss, big(p["sz"]) * ss, p["t"], p["fl"]) for p in case["parts"]]
    expect_eq([g[1] for g in got], [w[1] for w in want], "partitions listed (offsets, in order)", ctx)
    expect_eq(got, want, "number, offset, size, type and flags of every partition", ctx)
    for p, w in rng.sample(list(zip(disk.partitions, want)), min(2, len(want))):
        check_handle(p, blob, w[1], w[2], f"mbr partition {w[0]}")


def D01(ck: Check) -> None:
    scen = mbr_scenarios(ck.rng, ck.scale(600, 3000))
    recs = ck.model(tlc.run("Mbr", {"Enum": True}, ["TypeOK", "ListsExactly", "CountExact", "PrimariesBySlot", "StackBounded", "Emit"], scen, workers=6))
    recs.sort(key=lambda r: (r["id"], str(r["nodes"])))
    cases = []
    for i, r in enumerate(recs):
        cases.append(dict(r, phys=f"{ck.seed}-mbr-{i}", ss=512 if i % 3 else 4096, start=0 if i % 7 else 512 * (1 + i % 4096)))
    ck.run("mbr", cases, replay_mbr)


# -- D02 -----------------------------------------------------------------------------------------------------------------
def gpt_name(rng: random.Random) -> list[int]:
    kind = rng.randrange(8)
    if kind == 0:
        return []
    if kind == 1:
        return [0xFFFF] * 36
    if kind == 2:
        return [rng.randint(0x21, 0x7E) for _ in range(36)]
    units: list[int] = []
    for _ in range(rng.randint(1, 17)):
        k = rng.random()
        if k < 0.6:
            units.append(rng.randint(0x20, 0x7E))
        elif k < 0.8:
            units.append(rng.choice([0xE9, 0x3B1, 0x4E2D, 0xAC00, 0xFFFD]))
        elif k < 0.9:
            units += [0xD83D, rng.randint(0xDC00, 0xDFFF)]
        else:
            units.append(0xFFFF)
    units = units[:30] if not (len(units) > 30 and 0xD800 <= units[29] < 0xDC00) else units[:29]
    if kind == 6:
        units = [0x20, *units, 0x20, 0x20]
    if kind == 3:
        units += [0, *(rng.randint(0x21, 0x7E) for _ in range(5))]
    if kind == 4:
        units += [0xFFFF] * (36 - len(units))
    if kind == 5:
        units = [0xFFFF, *units, 0xFFFF, 0, 0xFFFF]
    if kind == 7:  # surrogates without their other half
        units.insert(rng.randint(0, len(units)), rng.choice([0xD83D, 0xDC00]))
    return units


def gpt_scenarios(rng: random.Random, count: int) -> list:
    out = []
    for i in range(count):
        top = rng.choice([60000, 1 << 32, (1 << 50)])
        n = rng.choice([rng.randint(1, 8), 128, rng.randint(1, 200)])
        entries = []
        density = rng.choice([0.05, 0.3, 0.8, 1.0])
        for _ in range(n):
            k = rng.random()
            if k > density:
                entries.append({"nil": True, "first": [0], "last": [0], "name": []})
            elif k < density * 0.05:
                entries.append({"nil": True, "first": limbs(rng.randint(1, top)), "last": limbs(top + 5), "name": gpt_name(rng)})
            else:
                first = rng.choice([1, 2, *[rng.randint(34, top)] * 10])
                entries.append({"nil": False, "first": limbs(first), "last": limbs(first + rng.choice([0, 1, rng.randint(0, top)])),
                                "name": gpt_name(rng)})
        slots = [{"t": 0xEE, "ofs": [1], "sz": limbs(0xFFFFFFFF)}]
        for _ in range(3):
            k = rng.random()
            if k < 0.5:
                slots.append({"t": 0, "ofs": [0], "sz": [0]})
            elif k < 0.6:
                slots.append({"t": 0xEE, "ofs": limbs(rng.randint(100, 60000)), "sz": [77]})
            else:
                slots.append({"t": rng.choice(PLAIN), "ofs": limbs(rng.randint(1, 0xFFFFFFFF)), "sz": limbs(rng.randint(1, 0xFFFFFFFF))})
        if rng.random() < 0.3:
            j = rng.randrange(4)
            if all(s["t"] != 0xEE for s in slots[1 : j + 1]):
                slots[0], slots[j] = slots[j], slots[0]
        out.append({"id": f"r{i}", "ss": rng.choice([512, 512, 4096]), "mbr": slots, "count": len(entries), "entries": entries})
    return out


def units_str(units: list[int]) -> str:
    return b"".join(u.to_bytes(2, "little") for u in units).decode("utf-16-le")


def same_name(got: str, units: list[int]) -> bool:
    """Units that are no text may be left out, replaced or kept."""
    raw = b"".join(u.to_bytes(2, "little") for u in units)
    st, name = outcome(raw.decode, "utf-16-le")
    if st == "ok":
        return got == name

    def text(name: str) -> str:
        return "".join(c for c in name if not 0xD800 <= ord(c) < 0xE000 and ord(c) not in (0xFFFD, 0xFFFF))

    return isinstance(got, str) and text(got) == text(raw.decode("utf-16-le", errors="ignore"))


def put_gpt(blob: Blob, rng: random.Random, case: dict, table: int, esize: int, types: dict, start: int = 0) -> dict:
    """Lays out a GPT disk at ``start``; returns what was chosen for the opaque fields, by entry number."""
    ss = case["ss"]
    opaque = {}
    slots = [{"t": m["t"], "ofs": big(m["ofs"]), "sz": big(m["sz"]), "fl": rng.choice([0, 0x80])} for m in case["mbr"]]
    blob.put(start, mbr_sector(slots, rng.getrandbits(32)))
    blob.put(start + ss, gpt_header(table, case["count"], esize))
    for i, e in enumerate(case["entries"], 1):
        t = NIL if e["nil"] else types.get(i) or uuid.UUID(int=rng.getrandbits(128) | 1)
        g = NIL if e["nil"] and not any(e["first"]) else uuid.UUID(int=rng.getrandbits(128))
        flags = 0 if e["nil"] else rng.choice([0, 1, 1 << 60, rng.getrandbits(64)])
        opaque[i] = (t, g, flags)
        data = gpt_entry(t, g, big(e["first"]), big(e["last"]), flags, e["name"])
        blob.put(start + table * ss + (i - 1) * esize, data + noise((i, ss), esize - 128))
    return {"entries": opaque, "slots": slots}


def replay_gpt(case: dict) -> None:
    rng = random.Random(case["phys"])
    ss = case["ss"]
    blob = device(case["phys"])
    esize = rng.choice([128, 128, 256, 512, 1024])
    table = rng.choice([2, 2, 3, 34, rng.randint(5, 1 << 20), (1 << 33) + 5])
    start = place_of(rng)
    info = put_gpt(blob, rng, case, table, esize, {}, start)
    blob.seek(start)
    disk = open_disk(rng, blob, ss, GPT)
    ctx = f"ss={ss} start={start} table={table} entry_size={esize} count={case['count']} slots={[m['t'] for m in case['mbr']]}"
    expect(isinstance(disk.scheme, GPT), "scheme is GPT", ctx)
    expect_eq(disk.serial, None, "serial", ctx)
    got = disk.partitions
    want = case["parts"]
    expect_eq([(p.number, p.offset) for p in got], [(w["number"], start + big(w["off"])) for w in want], "entries listed (number, offset, in order)", ctx)
    for p, w in zip(got, want):
        if w["kind"] == "mbr":
            s = info["slots"][w["idx"] - 1]
            expect_eq((p.type, p.size, p.flags), (s["t"], big(w["sz"]), s["fl"]), "hybrid MBR entry", ctx)
            continue
        t, g, flags = info["entries"][w["idx"]]
        expect_eq((p.type, p.guid, p.flags), (t, g, flags), "type GUID, GUID and flags", ctx)
        expect(same_name(p.name, w["name"]), "name", f"got {p.name!r} units={[hex(u) for u in w['name']]} {ctx}")
        if p.size != big(w["sz"]):
            expect_eq(p.size, big(w["szdev"]), "size", ctx)
            deviation("gpt-size-last-lba", f"entry {w['idx']} size={p.size} instead of {big(w['sz'])}")
    for p in rng.sample(got, min(2, len(got))):
        check_handle(p, blob, p.offset, p.size, f"gpt partition {p.number}")


def D02(ck: Check) -> None:
    scen = gpt_scenarios(ck.rng, ck.scale(150, 800))
    recs = ck.model(tlc.run("Gpt", {"Enum": True, "MaxCount": ck.scale(3, 5)}, ["TypeOK", "ListsExactly", "EachUsedOnce", "Ordered", "Emit"], scen, workers=6))
    recs.sort(key=lambda r: (r["id"], str(r["mbr"]), r["ss"], r["count"], str(r["parts"])))
    ck.run("gpt", [dict(r, phys=f"{ck.seed}-gpt-{i}") for i, r in enumerate(recs)], replay_gpt)


# -- D03 -----------------------------------------------------------------------------------------------------------------
def replay_apm(case: dict) -> None:
    rng = random.Random(case["phys"])
    blob = device(case["phys"])
    start = place_of(rng)
    if case["er"]:
        blob.put(start, apm_driver(case["bs"]))
    names = []
    n = len(case["entries"])
    for i, e in enumerate(case["entries"]):
        name = rng.choice([b"Apple", b"", b" lead", b"Macintosh HD ", b"a\tb\n", b"MiXed", b"N" * 32, b"disk image", "déjà".encode(), b"x" * rng.randint(1, 32), bytes(rng.randint(0x20, 0x7E) for _ in range(rng.randint(1, 32)))])
        type_ = rng.choice([b"Apple_HFS", b"Apple_partition_map", b"Apple_Free", b"T" * 32, b"Apple_Driver43", b" Apple_X ", b"apple_hfs", b"", bytes(rng.randint(0x20, 0x7E) for _ in range(rng.randint(1, 32)))])
        names.append((name.decode(), type_.decode()))
        blob.put(start + case["at"][i], apm_entry(n, big(e["start"]), big(e["size"]), name, type_))
    ctx = f"start={start} er={case['er']} bs={case['bs']} ss={case['ss']} n={n}"
    blob.seek(start)
    disk = open_disk(rng, blob, case["ss"], APM)
    expect(isinstance(disk.scheme, APM), "scheme is APM", ctx)
    expect_eq(disk.serial, None, "serial", ctx)
    got = [(p.number, p.offset, p.size) for p in disk.partitions]
    expect_eq(got, [(w["number"], start + big(w["off"]), big(w["sz"])) for w in case["parts"]], "number, offset, size of every entry", ctx)
    expect_eq([(p.name, p.type) for p in disk.partitions], names, "name and type of every entry", ctx)
    for p in rng.sample(disk.partitions, min(2, n)):
        check_handle(p, blob, p.offset, p.size, f"apm partition {p.number}")


def D03(ck: Check) -> None:
    rng = ck.rng
    scen = []
    for i in range(ck.scale(300, 1500)):
        top = rng.choice([1000, 0xFFFFFFFF])
        er = rng.random() < 0.85
        scen.append({"id": f"r{i}", "er": er, "bs": rng.choice([512, 512, 1024, 2048, 4096]), "ss": rng.choice([512, 2048, 4096]) if er else 512,
                     "entries": [{"start": limbs(rng.randint(1, top)), "size": limbs(rng.randint(0, top))} for _ in range(rng.choice([rng.randint(1, 40)] * 9 + [rng.randint(41, 300)]))]})
    recs = ck.model(tlc.run("Apm", {"Enum": True}, ["WalksMap", "ListsExactly", "Emit"], scen))
    recs.sort(key=str)
    ck.run("apm", [dict(r, phys=f"{ck.seed}-apm-{i}") for i, r in enumerate(recs)], replay_apm)


# -- D04 -----------------------------------------------------------------------------------------------------------------
def bsd_scenarios(rng: random.Random, count: int) -> list:
    out = []
    for i in range(count):
        labels = []
        ss = rng.choice([512, 512, 4096])
        for _ in range(rng.randint(1, 3)):
            bits = rng.choice([32, 64])
            n = rng.choice([8, 8, 16, rng.randint(3, 20)])
            slots = []
            base = rng.choice([0, 0, 63, rng.randint(1, 100000), 0xF0000000])
            for s in range(n):
                k = rng.random()
                if bits == 32:
                    off = rng.choice([base, base + rng.randint(0, 5000), rng.randint(0, 0xFFFFFFFF)])
                    sz = rng.choice([0, rng.randint(1, 5000), rng.randint(1, 0xFFFFFFFF)])
                else:
                    off = rng.choice([0, rng.randint(1, 1 << 22), rng.randint(0, (1 << 60))])
                    sz = rng.choice([0, rng.randint(1, 1 << 22), rng.randint(0, (1 << 60))])
                fs = rng.choice([0, 1, 7, 27, rng.randint(1, 255)])
                if s == 2 and bits == 32:
                    off = base
                if k < 0.2:
                    off = sz = fs = 0 if s != 2 or bits == 64 else off
                slots.append({"off": limbs(min(off, 0xFFFFFFFF) if bits == 32 else off), "sz": limbs(sz), "fs": fs if k >= 0.2 else 0})
            if bits == 32:
                slots[2]["off"] = limbs(base)
            labels.append({"bits": bits, "slots": slots})
        outer = []
        if rng.random() < 0.7:
            outer = [rng.randint(0, len(labels)) for _ in range(rng.randint(1, 4))]
            if not any(outer):
                outer[0] = 1
        out.append({"id": f"r{i}", "ss": ss, "outer": outer, "labels": labels})
    return out


def encode_label(label: dict, ss: int) -> bytes:
    slots = [{"off": big(s["off"]), "sz": big(s["sz"]), "fs": s["fs"]} for s in label["slots"]]
    if label["bits"] == 32:
        return bsd32(slots, ss=ss) + b"\x00" * 48
    return bsd64(slots)


def replay_bsd(case: dict) -> None:
    rng = random.Random(case["phys"])
    ss = case["ss"]
    blob = device(case["phys"])
    outer = case["outer"]
    place = {}
    start = place_of(rng)
    if not outer:
        blob.put(start, b"\x00" * 512)
        blob.put(start + ss, encode_label(case["labels"][0], ss))
        place[0] = (start, HUGE - start)
        what = "standalone"
    else:
        what = case["in"]
        step = (1 << 24) // ss
        lbas = [64 + k * (step + 8) for k in range(len(outer))]
        for k, lba in enumerate(lbas, 1):
            size = step * ss - (ss if what == "gpt" else 0)
            place[k] = (start + lba * ss, size)
            if outer[k - 1]:
                blob.put(start + lba * ss + ss, encode_label(case["labels"][outer[k - 1] - 1], ss))
        if what == "mbr":
            slots = [{"t": rng.choice(BSD_TYPES) if o else 0x83, "ofs": lba, "sz": step} for o, lba in zip(outer, lbas)]
            while len(slots) < 4:
                slots.append({"t": 0, "ofs": 0, "sz": 0})
            blob.put(start, mbr_sector(slots, 0x1234))
        else:
            g = {"ss": ss, "count": len(outer), "mbr": [{"t": 0xEE, "ofs": [1], "sz": [0xFFFF, 0xFFFF]}] + [{"t": 0, "ofs": [0], "sz": [0]}] * 3,
                 "entries": [{"nil": False, "first": limbs(lba), "last": limbs(lba + step - 1), "name": [65]} for lba in lbas]}
            put_gpt(blob, rng, g, 2, 128, {k: rng.choice(BSD_GUIDS) if o else uuid.UUID(int=7) for k, o in enumerate(outer, 1)}, start)
    blob.seek(start)
    ctx = f"ss={ss} start={start} in={what} outer={outer}"
    disk = open_disk(rng, blob, ss, None if outer else BSD)
    got = disk.partitions
    want = case["parts"]
    expect(isinstance(disk.scheme, BSD), "scheme is BSD", ctx)
    expect_eq(disk.serial, None, "serial", ctx)
    exp = []
    for w in want:
        base, size = place[w["outer"]]
        if w["fs"] == -1:
            exp.append((w["number"], base, size))
        else:
            # slices are given relative to the partition that holds the label
            exp.append((w["number"], big(w["off"]) + (0 if outer else start), big(w["sz"])))
    have = [(p.number, p.offset, p.size) for p in got]
    expect_eq([(h[0], h[1]) for h in have], [(w[0], w[1]) for w in exp], "slices listed (number, offset, in place)", ctx)
    for p, h, e, w in zip(got, have, exp, want):
        if w["fs"] == -1 and what == "gpt":
            continue  # the size of GPT entries is decided by D02
        expect_eq(h, e, "number, offset and size of a slice", ctx)
        if w["fs"] != -1:
            expect_eq(p.type, w["fs"], "type of a slice", ctx)
            label = case["labels"][(outer[w["outer"] - 1] if outer else 1) - 1]
            expect_eq(p.guid, bsd64_guid(w["number"]) if label["bits"] == 64 else None, "GUID of a slice", ctx)
    # contents of slices that lie within their container
    for p, w in zip(got, want):
        base, size = place[w["outer"]]
        off, sz = (0, p.size) if w["fs"] == -1 else (big(w["off"]), big(w["sz"]))
        if off < size:
            check_handle(p, blob, base + off, min(sz, size - off), f"slice {w}")


def D04(ck: Check) -> None:
    scen = bsd_scenarios(ck.rng, ck.scale(400, 2500))
    recs = ck.model(tlc.run("Bsd", {"Enum": True, "MaxSlots": ck.scale(4, 5)}, ["TypeOK", "ListsExactly", "RawNeverListed", "InPlace", "Emit"], scen, workers=6))
    recs.sort(key=str)
    cases = [dict(r, phys=f"{ck.seed}-bsd-{i}", **{"in": ("mbr", "gpt")[i % 2]}) for i, r in enumerate(recs)]
    ck.run("bsd", cases, replay_bsd)


# -- D05 -----------------------------------------------------------------------------------------------------------------
VBR = {
    "NTFS": b"NTFS    ", "MSDOS5.0": b"MSDOS5.0", "MSWIN4.1": b"MSWIN4.1", "EXFAT": b"EXFAT   ", "FVE": b"-FVE-FS-",
    "SYSLINUX": b"SYSLINUX", "FAT32": b"  FAT32 ",
}  # fmt: skip


def replay_detect(case: dict) -> None:
    rng = random.Random(case["phys"])
    c = case["cfg"]
    ss = c["ss"]
    blob = Blob(1 << 30, case.get("fill", 0))
    boot = boot_code(rng, case["phys"])
    if c["vbr"] in VBR:
        boot[3:11] = VBR[c["vbr"]]
    elif c["vbr"] == "QNX1":
        boot[18:38] = b"Hit Esc for .altboot"
    elif c["vbr"] == "QNX2":
        boot[168:174] = b"\r\nQNX "
    if c["er"]:
        boot[0:4] = b"ER" + ss.to_bytes(2, "big")
    slots = []
    if c["prim"]:
        slots.append({"t": 0x83, "ofs": 2048, "sz": 100})
    if c["ee"]:
        slots.append({"t": 0xEE, "ofs": 1, "sz": 0xFFFFFFFF})
    if c["bsdp"] != "no":
        slots.append({"t": rng.choice(BSD_TYPES), "ofs": 4096, "sz": 4096})
        blob.put(4096 * ss + ss, bsd32([{"off": 0, "sz": 1, "fs": 7}] * 8) if c["bsdp"] == "good" else b"\x00" * 512)
    rng.shuffle(slots)
    while len(slots) < 4:
        slots.append({"t": 0, "ofs": 0, "sz": 0})
    serial = rng.getrandbits(32)
    sig = b"\x55\xaa" if c["sig"] else rng.choice([b"\xaa\x55", b"\x55\x00", b"\x00\xaa", b"\x00\x00", b"\x55\xab"])
    blob.put(0, mbr_sector(slots, serial, bytes(boot), sig))
    one = c["one"]
    if one == "gpt":
        data = gpt_header(2, 4, 128)
        blob.put(2 * ss, gpt_entry(uuid.UUID(int=9), uuid.UUID(int=10), 40, 50, 0, [65]) + b"\x00" * 384)
    elif one == "apm":
        data = apm_entry(1, 1, 63, b"Apple", b"Apple_partition_map")
    elif one == "bsd32":
        data = bsd32([{"off": 0, "sz": 5, "fs": 7}] * 8)
    elif one == "bsd64":
        data = bsd64([{"off": 8192, "sz": 5, "fs": 7}] * 8)
    elif one == "bsdbad":
        data = bsd32([{"off": 0, "sz": 5, "fs": 7}] * 8, magic2=0x82564558)
    else:
        data = rng.choice([b"\x00" * 512, b"EFI PARU" + b"\x00" * 504, b"PN" + b"\x00" * 510, b"\x57\x45\x56\x83" + b"\x00" * 508])
    blob.put(ss, data)
    st, disk = outcome(Disk, blob, ss)
    ctx = f"{c} -> {type(disk).__name__ if st == 'err' else type(disk.scheme).__name__}"
    if case["verdict"] == "error":
        expect(st == "err", "a disk without a usable scheme is rejected", ctx)
        expect(isinstance(disk, DiskError), "rejection is a DiskError", ctx)
        return
    expect(st == "ok", "a recognised scheme opens", f"{ctx} {disk}")
    expect_eq(type(disk.scheme), {"GPT": GPT, "MBR": MBR, "APM": APM, "BSD": BSD}[case["verdict"]], "detected scheme", ctx)
    expect_eq(disk.serial, serial if case["verdict"] == "MBR" else None, "serial", ctx)


def D05(ck: Check) -> None:
    recs = ck.model(tlc.run("Detect", {}, ["VerdictExact", "SerialOnlyMbr", "Emit"]))
    recs.sort(key=str)
    times = ck.scale(2, 8)
    ck.run("detect", [dict(r, phys=f"{ck.seed}-det-{i}-{t}") for i, r in enumerate(recs) for t in range(times)], replay_detect)


# -- D07 -----------------------------------------------------------------------------------------------------------------
def replay_type(case: dict) -> None:
    rng = random.Random(case["phys"])
    ss = rng.choice([512, 512, 4096])
    blob = device(case["phys"])
    entries = case["disk"]
    # every entry is found again by its size
    size = [1000 + 10 * i for i in range(len(entries))]
    of = {k: [i for i, e in enumerate(entries) if e["kind"] == k] for k in ("mbr", "logical", "gpt", "slice32", "slice64", "apm")}
    slices = of["slice32"] or of["slice64"]
    if of["apm"]:
        for i, e in enumerate(entries):
            blob.put(ss * (1 + i), apm_entry(len(entries), 100 + 5000 * i, size[i], b"name", e["text"].encode()))
        blob.put(0, apm_driver(ss))
    else:
        slots = [{"t": entries[i]["num"], "ofs": 100000 + 5000 * i, "sz": size[i]} for i in of["mbr"]]
        parts = [(uuid.UUID(hex="".join(f"{w:04x}" for w in entries[i]["guid"])), 200000 + 5000 * i, size[i]) for i in of["gpt"]]
        if of["logical"]:
            slots.append({"t": rng.choice(EXT), "ofs": 300000, "sz": 90000})
            for n, i in enumerate(of["logical"]):
                link = {"t": rng.choice(EXT), "ofs": 5000 * (n + 1), "sz": 5000} if n + 1 < len(of["logical"]) else {"t": 0, "ofs": 0, "sz": 0}
                blob.put((300000 + 5000 * n) * ss, mbr_sector([{"t": entries[i]["num"], "ofs": 63, "sz": size[i]}, link] + [{"t": 0, "ofs": 0, "sz": 0}] * 2))
        if slices:
            unit = 1 if of["slice32"] else ss
            table = [{"off": 64 * unit, "sz": size[i] * unit, "fs": entries[i]["num"]} for i in slices]
            table.insert(2, {"off": 0, "sz": 60000 * unit, "fs": 0})
            while len(table) < 3 or table[2]["fs"]:
                table.insert(len(table) - 1, {"off": 0, "sz": 0, "fs": 0})
            label = encode_label({"bits": 32 if of["slice32"] else 64, "slots": [dict(t, off=limbs(t["off"]), sz=limbs(t["sz"])) for t in table]}, ss)
            if not parts and len(entries) == len(slices) and rng.random() < 0.3:
                blob.put(0, b"\x00" * 512)
                blob.put(ss, label)
                slots = None
            else:
                blob.put(400000 * ss + ss, label)
                if parts:
                    parts.append((rng.choice(BSD_GUIDS), 400000, 70001))
                else:
                    slots.append({"t": rng.choice(BSD_TYPES), "ofs": 400000, "sz": 70001})
        if parts:
            slots.append({"t": 0xEE, "ofs": 1, "sz": 0xFFFFFFFF})
            blob.put(ss, gpt_header(2, len(parts), 128))
            blob.put(2 * ss, b"".join(gpt_entry(g, uuid.UUID(int=7 + n), first, first + n_sectors, 0, [65]) for n, (g, first, n_sectors) in enumerate(parts)))
        if slots is not None:
            rng.shuffle(slots)
            blob.put(0, mbr_sector(slots + [{"t": 0, "ofs": 0, "sz": 0}] * (4 - len(slots)), 0x1234))
    ctx = f"ss={ss} {entries}"
    got = {p.size // ss // 10: p for p in Disk(blob, sector_size=ss).partitions}
    for i, (e, w) in enumerate(zip(entries, case["said"])):
        p = got.get(size[i] // 10)
        expect(p is not None, "partition is listed", lambda e=e: f"{e} {ctx}")
        expect_eq(p.type_name, w["name"], "name of the type", f"{e['kind']} {e['num']:#x} {ctx}")
        expect_eq(p.type_str, w["text"], "description of the type", f"{e['kind']} {e['num']:#x} {ctx}")


def D07(ck: Check) -> None:
    recs = []
    for family in ("mbr", "logical", "guid", "near", "slice", "apm", "mixed"):
        steps = {"apm": 3, "mixed": ck.scale(2, 3)}.get(family, 1)
        recs += ck.model(tlc.run("PartType", {"Family": family, "Steps": steps}, ["Independent", "NearIsUnknown", "Distinct", "Emit"]))
    recs.sort(key=str)
    ck.run("type", [dict(r, phys=f"{ck.seed}-type-{i}") for i, r in enumerate(recs)], replay_type)


REPLAY = {"type": replay_type, "mbr": replay_mbr, "gpt": replay_gpt, "apm": replay_apm, "bsd": replay_bsd, "detect": replay_detect}
