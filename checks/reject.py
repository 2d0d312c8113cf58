"""G02: foreign, cut off and damaged images of every format, as enumerated by Reject.tla, on the real readers."""

from __future__ import annotations

import random
import struct
import uuid
from dataclasses import dataclass, field
from typing import Callable

from vlib import ddfimg, lvmimg, mdimg, thinimg, tlc, vssimg
from vlib.blob import Blob
from vlib.harness import Check, expect, expect_eq
from vlib.parts import apm_driver, apm_entry, bsd32, bsd64, gpt_entry, gpt_header, mbr_sector

from dissect.volume.ddf.ddf import DDF
from dissect.volume.disk import Disk
from dissect.volume.dm.thin import ThinPool
from dissect.volume.lvm import LVM2
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import Vinum
from dissect.volume.vss import VSS

INV = ["Exact", "Bounded", "Complete", "OneValue", "Emit"]
NONE = {"t": 0, "ofs": 0, "sz": 0}


@dataclass
class Part:
    """A structure of an image: bytes ``at`` to ``at + size`` are needed to read it."""

    name: str
    at: int
    size: int
    up: str | None = None
    end: bool = False
    need: bool = True
    # places and other values of its signature: (offset, function giving damaged bytes)
    sig: list[tuple[int, Callable]] = field(default_factory=list)
    # places of the link to it, and what is stored there for a target offset
    ptr: list[tuple[int, Callable[[int], bytes]]] = field(default_factory=list)
    loops: list[str] = field(default_factory=list)
    dup: Callable | None = None
    # places with exact values: (offset, value, other valid values, kind)
    marks: list[tuple[int, bytes, tuple, str]] = field(default_factory=list)

    def __post_init__(self):
        self.marks += [m[:1] + m[2:] + ("sig",) for m in self.sig if len(m) == 4]


@dataclass
class Image:
    fmt: str
    blob: Blob
    parts: list[Part]
    use: Callable

    def __post_init__(self):
        self.parts.sort(key=lambda p: (p.at, -p.size))

    def scenario(self, name: str) -> dict:
        no = {p.name: i for i, p in enumerate(self.parts, 1)}
        return {"id": name, "fmt": self.fmt, "max": 2 if len(self.parts) <= 22 else 1, "parts": [{
            "p": no[p.up] if p.up else 0, "end": p.end, "sig": bool(p.sig), "ptr": bool(p.ptr), "need": p.need, "loops": [no[x] for x in p.loops], "dup": p.dup is not None,
        } for p in self.parts]}  # fmt: skip


def other(value: bytes, rng: random.Random, valid: tuple = ()) -> bytes:
    """Bytes that are not a signature."""
    while True:
        v = bytearray(value)
        k = rng.randrange(6)
        if k == 0:
            v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
        elif k == 1:
            v = bytearray(len(v))
        elif k == 2:
            v = bytearray(b"\xff" * len(v))
        elif k == 3:
            v.reverse()
        elif k == 4:
            v = bytearray(rng.randbytes(len(v)))
        else:
            i = rng.randrange(len(v))
            v[i] = (v[i] + rng.choice([1, 255, 0x20])) & 0xFF
        if bytes(v) != value and bytes(v) not in valid:
            return bytes(v)


def sig(off: int, value: bytes, valid: tuple = ()) -> tuple[int, Callable]:
    return off, lambda rng: other(value, rng, valid), value, valid


OEM = (b"NTFS    ", b"MSDOS5.0", b"MSWIN4.1", b"EXFAT   ", b"-FVE-FS-", b"SYSLINUX", b"FAT32   ")
BOOT = [(3, name, (), "oem") for name in OEM] + [(18, b"Hit Esc for .altboot", (), "text"), (168, b"\r\nQNX ", (), "text")]


def one(off: int, value: bytes, values: Callable, valid: tuple = ()) -> tuple:
    """A signature for which ``values`` gives the interesting other ones."""
    return off, values, value, valid


def le(n: int, scale: int = 1, base: int = 0) -> Callable[[int], bytes]:
    return lambda target: struct.pack({4: "<I", 8: "<Q"}[n], (target - base) // scale)


# -- readers -------------------------------------------------------------------------------------------------------------
def use_disk(ss: int, fh) -> list:
    disk = Disk(fh, ss)
    out = [type(disk.scheme).__name__]
    for p in disk.partitions:
        p.open()
        out.append((p.number, p.offset, p.size, str(p.type), p.name))
    return out


def use_md(fh) -> list:
    return [(vd.name, vd.uuid, vd.size, vd.level, vd.open() is not None) for c in MD(fh).configurations for vd in c.virtual_disks]


def use_ddf(ss: int, fh) -> list:
    return [(vd.name, vd.uuid, vd.size, vd.level, vd.open() is not None) for c in DDF(fh, ss).configurations for vd in c.virtual_disks]


def use_vinum(fh) -> list:
    return [(vd.name, vd.uuid, vd.size, vd.level, vd.open() is not None) for c in Vinum(fh).configurations for vd in c.virtual_disks]


def use_lvm(fh) -> list:
    vg = LVM2(fh).vg
    return [vg.name, vg.id] + [(name, lv.id, lv.open().size) for name, lv in vg.logical_volumes.items()]


def use_thin(devs: dict, fh) -> list:
    pool = ThinPool(fh, Blob(1 << 24, "data"))
    return [(d, pool.open(d, n * pool.metadata.data_block_size * 512).read()) for d, n in devs.items()]


def use_vss(fh) -> list:
    v = VSS(fh)
    out = []
    for s in v.catalog.stores:
        prev = s.previous_bitmap
        out.append((s.creation_time, str(s.copy_identifier), s.size, len(s.block_list.map.map), len(s.range_list.entries), s.bitmap.in_use(1), prev is None or prev.in_use(1)))
    return out


# -- images --------------------------------------------------------------------------------------------------------------
def _dup(where: int, slot: int) -> Callable[[Blob], None]:
    """A second entry with the same link."""

    def fn(b: Blob) -> None:
        b.put(where - 8 - 16 * slot + 16 * (3 if slot != 3 else 2), b.peek_at(where - 8, 16))

    return fn


def mk_mbr(rng: random.Random) -> Image:
    ss = rng.choice([512, 512, 4096])
    n = rng.choice([0, 1, 2, 3, 4, 4, 60])
    spots = sorted(rng.sample(range(100, 3000), n))
    chain = spots[:1] + rng.sample(spots[1:], max(0, n - 1))  # links are relative to the first one
    blob = Blob(4200 * ss, f"mbr{rng.random()}")
    slot = rng.randrange(4)
    entries = [{"t": rng.choice([0x83, 7, 0x0C]), "ofs": 3100 + 200 * i, "sz": 100} if rng.random() < 0.6 else NONE for i in range(4)]
    if n:
        entries[slot] = {"t": rng.choice([5, 0x0F, 0x85]), "ofs": chain[0], "sz": 3000}
    blob.put(0, mbr_sector(entries, rng.getrandbits(32), boot=b"\xfa" + rng.randbytes(2)))
    parts = [Part("mbr", 0, 512, sig=[sig(510, b"\x55\xaa")], marks=list(BOOT)), Part("data", 3100 * ss, 900 * ss, need=False)]
    for i, at in enumerate(chain):
        here, base, k = (chain[i - 1], chain[0], 1) if i else (0, 0, slot)
        where = here * ss + 446 + 16 * k + 8
        link = {"t": rng.choice([5, 0x0F]), "ofs": chain[i + 1] - chain[0], "sz": 50} if i + 1 < n else NONE
        blob.put(at * ss, mbr_sector([{"t": 0x83, "ofs": 1, "sz": 20}, link, NONE, NONE]))
        loops = [f"ebr{j}" for j in sorted({*range(min(i, 2)), i // 2, i - 1})] if i else ["mbr"]
        parts.append(Part(f"ebr{i}", at * ss, 512, f"ebr{i - 1}" if i else "mbr", ptr=[(where, le(4, ss, base * ss))], loops=loops, dup=_dup(where, k)))
    return Image("mbr", blob, parts, lambda fh: use_disk(ss, fh))


def mk_gpt(rng: random.Random) -> Image:
    ss = rng.choice([512, 512, 4096])
    blob = Blob(3000 * ss, f"gpt{rng.random()}")
    count, esize, lba = rng.randint(1, 9), rng.choice([128, 128, 256]), rng.choice([2, 2, 40, 500])
    blob.put(0, mbr_sector([{"t": 0xEE, "ofs": 1, "sz": 2999}, NONE, NONE, NONE]))
    blob.put(ss, gpt_header(lba, count, esize))
    for i in range(count):
        e = gpt_entry(uuid.UUID(int=5), uuid.UUID(int=i), 1000 + 9 * i, 1005 + 9 * i, 0, [65 + i])
        blob.put(lba * ss + i * esize, e if rng.random() < 0.6 else bytes(128))
    parts = [
        Part("mbr", 0, 512, sig=[sig(510, b"\x55\xaa")], marks=list(BOOT)),
        # an entry has at least 128 bytes
        Part("header", ss, 92, "mbr", sig=[sig(ss, b"EFI PART"), sig(ss, b"EFI PART"), (ss + 84, lambda r: struct.pack("<I", r.choice([0, 0, 1, 127])))], ptr=[(454, le(4, ss))]),
        Part("table", lba * ss, (count - 1) * esize + 128, "header", ptr=[(ss + 72, le(8, ss))]),
        Part("data", 1000 * ss, 1000 * ss, need=False),
    ]
    return Image("gpt", blob, parts, lambda fh: use_disk(ss, fh))


def mk_apm(rng: random.Random) -> Image:
    bs = rng.choice([512, 512, 1024, 2048])
    count = rng.randint(2, 6)
    blob = Blob(500 * bs, f"apm{rng.random()}")
    blob.put(0, apm_driver(bs))
    for i in range(count):
        blob.put(bs + bs * i, apm_entry(count, 100 + 10 * i, 5 + i, b"n%d" % i, b"Apple_HFS"))
    parts = [
        Part("driver", 0, 512, sig=[sig(0, b"ER", (b"PM",))]),
        Part("first", bs, 136, "driver", sig=[sig(bs, b"PM", (b"ER",))]),
        Part("rest", 2 * bs, (count - 2) * bs + 136, "first"),
        Part("data", 100 * bs, 100 * bs, need=False),
    ]
    return Image("apm", blob, parts, lambda fh: use_disk(512, fh))


def mk_bsd(rng: random.Random, wide: bool) -> Image:
    blob = Blob(4000 * 512, f"bsd{rng.random()}")
    nested = rng.random() < 0.5
    base = rng.choice([63, 64, 200]) if nested else 0
    slots = [{"off": base + 300, "sz": 30, "fs": 7}, {"off": 0, "sz": 0, "fs": 0}, {"off": base, "sz": 3000, "fs": 0}] + [{"off": base + 400 + 100 * i, "sz": 90, "fs": 7} for i in range(rng.randint(1, 5))]
    at = (base + 1) * 512
    if wide:
        magic, head, one, label = b"\x59\x4c\x46\xc4", 200, 64, bsd64([dict(s, off=s["off"] * 512, sz=s["sz"] * 512) for s in slots])
        sigs = [sig(at, magic)]
    else:
        magic, head, one, label = b"\x57\x45\x56\x82", 148, 16, bsd32(slots)
        sigs = [sig(at, magic), sig(at + 132, magic)]
    if label[:4] != magic or len(label) != head + one * len(slots):
        raise RuntimeError("layout of the disklabel")
    parts = []
    if nested:
        blob.put(0, mbr_sector([{"t": rng.choice([0xA5, 0xA6]), "ofs": base, "sz": 3500}, NONE, NONE, NONE]))
        parts.append(Part("mbr", 0, 512, sig=[sig(510, b"\x55\xaa")], marks=list(BOOT)))
    blob.put(at, label)
    up = "mbr" if nested else None
    ptr = [(454, le(4, 512, 512))] if nested else []
    parts += [Part("label", at, head, up, sig=sigs, ptr=ptr), Part("table", at + head, one * len(slots), "label"), Part("data", at + 300 * 512, 512 * 500, need=False)]
    return Image("bsd64" if wide else "bsd32", blob, parts, lambda fh: use_disk(512, fh))


def mk_md(rng: random.Random) -> Image:
    ver = rng.choice(["0.90", "1.0", "1.1", "1.2"])
    total = rng.choice([4096, 5000, 4999 + rng.randrange(300)])
    blob = Blob(total * 512 + rng.choice([0, 17]), f"md{rng.random()}", rng.random() < 0.3)
    f = {"set_uuid": rng.randbytes(16), "name": b"set", "ctime": 1000, "utime": 2000, "events": 7, "level": 1, "layout": 0, "size": 1024, "chunk": 0, "raid_disks": 2,
         "data_offset": 1000, "data_size": 1024, "super_offset": 8, "dev_number": 0, "dev_uuid": rng.randbytes(16), "roles": [0, 1] + [0xFFFF] * rng.randint(0, 60),
         "disks": [(0, 0, 6), (1, 1, 6)], "this_disk": (0, 0, 6)}  # fmt: skip
    at = mdimg.place(ver, total) * 512
    sb = mdimg.sb0(f) if ver == "0.90" else mdimg.sb1(f)
    blob.put(at, sb)
    late = ver in ("0.90", "1.0")
    # multipath and container sets, and levels that do not exist
    lvl = at + (28 if ver == "0.90" else 72)
    level = one(lvl, struct.pack("<i", 1), lambda r: struct.pack("<i", r.choice([-4, -5, 2, 3, 7, -2, 9, 11, 1 << 30])), tuple(struct.pack("<i", x) for x in (-1, 0, 4, 5, 6, 10)))
    parts = [Part("sb", at, len(sb), end=late, sig=[level, sig(at, struct.pack("<I", mdimg.MAGIC)), one(at + 4, sb[4:8], lambda r: struct.pack("<I", r.choice([2, 3, 256, 1 << 31, r.randint(2, 1 << 31)])), (bytes(4), b"\x01\0\0\0"))])]
    if not late:
        parts.append(Part("data", 1000 * 512, 1024 * 512, need=False))
    return Image("md", blob, parts, use_md)


def mk_ddf(rng: random.Random) -> Image:
    ss = rng.choice([512, 512, 4096])
    base = 200
    pos = 1
    place = {}
    sizes = {"controller": 1, "pdr": 2, "vdr": 2, "conf": 2, "pdd": 1, "bbm": 1, "diag": 1, "logs": 1}
    for name in rng.sample(list(sizes), len(sizes)):
        pos += rng.randint(0, 2)
        place[name] = (pos, sizes[name])
        pos += sizes[name]
    total = base + pos + rng.randint(1, 5)
    blob = Blob(total * ss, f"ddf{rng.random()}")
    hf = dict(place, guid=rng.randbytes(24), seq=1, primary=base, secondary=ddfimg.ALL, workspace=base + 3, rec_len=2, mppe=4)
    blob.put(base * ss, ddfimg.header(hf, 1))
    anchor = (total - 1) * ss
    blob.put(anchor, ddfimg.header(hf, 0))
    guid = rng.randbytes(24)
    other_ = rng.randbytes(24)
    vd = rng.randbytes(24)
    rec = {"guid": vd, "time": 5, "seq": 1, "pec": 2, "strip": 3, "prl": 1, "rlq": 0, "srl": 0, "nsec": 1, "sec": 0, "blocks": 64, "size": 64, "bs": 0xFFFF, "refs": [7, 8], "starts": [0, 0]}
    data = {
        "controller": ddfimg.controller(rng.randbytes(24)),
        "pdr": ddfimg.table(0x22222222, 2, 2, [ddfimg.pde(guid, 7, 0x2002, 1, 190, ss), ddfimg.pde(other_, 8, 0x2002, 1, 190, ss)]),
        "vdr": ddfimg.table(0xDDDDDDDD, 1, 1, [ddfimg.vde(vd, 0, 0, 0, 2, b"vd")]),
        "conf": ddfimg.vdcr(rec, 4, 2 * ss),
        "pdd": ddfimg.pdd(guid, 7),
    }
    headers = [anchor, base * ss]
    parts = [
        Part("anchor", anchor, 512, end=True, sig=[sig(anchor, b"\xde\x11\xde\x11")]),
        Part("primary", base * ss, 512, "anchor", end=True, sig=[sig(base * ss, b"\xde\x11\xde\x11")], ptr=[(anchor + 96, lambda t: struct.pack(">Q", t // ss))]),
    ]
    for k, name in enumerate(("controller", "pdr", "vdr", "conf", "pdd")):
        at = (base + place[name][0]) * ss
        blob.put(at, data[name])
        ptr = [(h + 192 + 8 * k, lambda t: struct.pack(">I", (t // ss - base) & 0xFFFFFFFF)) for h in headers]
        # a record without signature is an unused slot
        parts.append(Part(name, at, len(data[name]), "primary", end=True, sig=[] if name == "conf" else [sig(at, data[name][:4])], ptr=ptr))
        if name == "pdd":  # the disk has a record of its own
            parts[-1].sig.append(sig(at + 32, struct.pack(">I", 7), (struct.pack(">I", 8),)))
            parts[-1].marks.append((at + 32, struct.pack(">I", 7), (struct.pack(">I", 8),), "sig"))
    return Image("ddf", blob, parts, lambda fh: use_ddf(ss, fh))


VINUM = [bytes.fromhex(x) for x in ("494E2056494E4F00", "4E4F2056494E4F00", "56494E554D2D3100", "56494E554D2D2D00")]


def mk_vinum(rng: random.Random) -> Image:
    blob = Blob(400000, f"vinum{rng.random()}")
    magic = rng.choice([VINUM[0], VINUM[2]])
    text = b"volume vol state up\nplex name vol.p0 org concat vol vol state up\n"
    text += b"sd name vol.p0.s0 drive d1 len 200s driveoffset 265s state up plex vol.p0 plexoffset 0s\n"
    if rng.random() < 0.5:
        text += b"volume two state up\nplex name two.p0 org concat vol two state up\nsd name two.p0.s0 drive d1 len 100s driveoffset 465s state up plex two.p0 plexoffset 0s\n"
    length = rng.choice([65536, 65536, len(text)])
    blob.put(4096, struct.pack(">8sQ32s32sQQQQQ", magic, length, b"host", b"d1", 5, 6, 1 << 30, 8, rng.choice([400000, 300000])))
    blob.put(4608, text.ljust(length, b"\x00"))
    parts = [
        Part("header", 4096, 120, sig=[sig(4096, magic, tuple(VINUM))]),
        Part("config", 4608, len(text), "header"),
        Part("data", 135680, 200000, need=False),
    ]
    return Image("vinum", blob, parts, use_vinum)


def mk_lvm(rng: random.Random) -> Image:
    blob = Blob(5 << 20, f"lvm{rng.random()}")
    pvid = lvmimg.new_id(rng)
    n = rng.choice([1, 2, 3, 4])
    names = [f"lv{chr(97 + i)}{rng.randint(10, 99)}" for i in range(n)]
    lvs = {}
    for i, name in enumerate(names):
        # every volume is a mirror of the one before it
        seg = {"start_extent": 0, "extent_count": 10, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}
        if i:
            both = [names[i - 1], 0]
            seg = {"start_extent": 0, "extent_count": 10, "type": "mirror", "mirror_count": 1, "region_size": 1024, "mirrors": both if rng.random() < 0.5 else both * 2}
        lvs[name] = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "segment_count": 1, "segment1": seg}
    pv = {"id": lvmimg.dashed(pvid), "device": "/dev/sda", "status": ["ALLOCATABLE"], "flags": [], "dev_size": 8192, "pe_start": 6144, "pe_count": 100}
    vg = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "seqno": 3, "format": "lvm2", "status": ["READ"], "flags": [], "extent_size": 8, "max_lv": 0, "max_pv": 0,
          "metadata_copies": 0, "physical_volumes": {"pv0": pv}, "logical_volumes": lvs}  # fmt: skip
    tree = {"vg0": vg, "contents": "Text Format Volume Group", "version": 1}
    if rng.random() < 0.5:
        tree = {k: tree[k] for k in ("contents", "version", "vg0")}
    # there is room for another group
    again = lvmimg.text_of({rng.choice(["vg1", "a"]): vg}, lvmimg.Style(rng, True)).encode()
    text = lvmimg.text_of(tree, lvmimg.Style(rng, True)).encode() + b"\n"
    end = len(text)
    text += b"\n" * len(again) + b"\x00"
    area, sector = 4096 * rng.choice([1, 2, 5]), rng.randrange(4)
    offset = 512 * rng.choice([1, 2, 9])
    lvmimg.label(rng, blob, sector, pvid, 4 << 20, (3 << 20, 0), [(area, 1 << 20)])
    lvmimg.area(rng, blob, area, 1 << 20, text, offset)
    label = sector * 512
    head = struct.unpack("<I", blob.peek_at(label + 20, 4))[0]
    at = area + offset
    parts = [
        # a physical volume has one data area
        Part("label", label, head + 104, sig=[sig(label, b"LABELONE"), (label + head + 40, lambda r: struct.pack("<16xQQ48x", area, 1 << 20)), (label + head + 56, lambda r: struct.pack("<QQ16xQQ64x", 8192, 4096, area, 1 << 20))]),
        Part("area", area, 88, "label", sig=[sig(area + 4, b" LVM2 x[5A%r0N*>")], ptr=[(label + head + 40 + 32, le(8))]),
        Part("text", at, end - 1, "area", sig=[(at + end, lambda r: again)], ptr=[(area + 40, le(8, 1, area))]),
        Part("data", 3 << 20, 1 << 20, need=False),
    ]
    if blob.peek_at(label + head + 40 + 32, 8) != struct.pack("<Q", area) or blob.peek_at(area + 40, 8) != struct.pack("<Q", offset):
        raise RuntimeError("layout of the label")
    place = {name: at + text.index(name.encode() + b" {") for name in names}
    back = {v: k for k, v in place.items()}
    for i in range(n - 1):  # volumes are found by name
        quoted = b'"' + names[i].encode() + b'"'
        ptr = [(at + k + 1, lambda t: back.get(t, "none0").encode()) for k in range(len(text)) if text.startswith(quoted, k)]
        parts.append(Part(names[i], place[names[i]], 4, names[i + 1], ptr=ptr, loops=names[i + 1 :]))
    parts.append(Part(names[-1], place[names[-1]], 4, "text"))
    return Image("lvm", blob, parts, use_lvm)


def mk_thin(rng: random.Random) -> Image:
    meta = thinimg.Meta(rng, rng.choice([8, 8, 4]))
    tree: list = []  # name, block, parent, position of the link in the parent, ancestors

    def build(name: str, entries: dict, size: int) -> int:
        """Leaves of one or two keys below up to two levels."""
        keys = sorted(entries)
        level = []
        i = 0
        while i < len(keys):
            k = rng.randint(1, 2)
            part = keys[i : i + k]
            i += k
            level.append((part[0], meta.node(True, part, [entries[x] for x in part], size), f"{name}-l{i}", []))
        depth = 0
        while len(level) > 1:
            depth += 1
            wide = len(level) if depth == 2 else rng.choice([2, 3])
            up = []
            for i in range(0, len(level), wide):
                part = level[i : i + wide]
                node = f"{name}-n{depth}-{i}"
                up.append((part[0][0], meta.node(False, [p[0] for p in part], [struct.pack("<Q", p[1]) for p in part], 8), node, part))
            level = up

        def note(item: tuple, parent: str | None, slot: int, above: list) -> None:
            _, block, node, kids = item
            tree.append((node, block, parent, slot, above))
            for k, kid in enumerate(kids):
                note(kid, node, k, [*above, node])

        note(level[0], None, 0, [])
        return level[0][1]

    devs = {}
    roots = {}
    owner: dict = {}
    ids = sorted(rng.sample(range(20), rng.choice([1, 2, 3])))
    for d in ids:
        count = rng.choice([1, 3, 5])
        devs[d] = count + 1
        roots[d] = build(f"dev{d}", {b: thinimg.block_time(rng, rng.randrange(50)) for b in range(count)}, 8)
        owner[f"dev{d}"] = d
    top = build("map", {d: struct.pack("<Q", roots[d]) for d in ids}, 8)
    details = build("det", {d: thinimg.details(rng) for d in ids}, 24)
    blob = meta.finish(top, details, 8, rng.random() < 0.3)
    blob2 = Blob(blob.length + 4 * meta.size, blob.fill, False)
    blob2.pages = blob.pages
    sb = struct.pack("<Q", thinimg.MAGIC)
    if blob.peek_at(32, 8) != sb or blob.peek_at(320, 16) != struct.pack("<QQ", top, details):
        raise RuntimeError("layout of the superblock")
    parts = [Part("sb", 0, 360, sig=[sig(32, sb)]), Part("data", meta.next * meta.size + 3 * meta.size, 512, need=False)]
    block_of = {node: block for node, block, *_ in tree}

    def room(block: int) -> tuple[int, int, int]:
        return struct.unpack("<III", meta.nodes[block][16:28])

    def slot_at(block: int, slot: int) -> int:
        return block * meta.size + 32 + 8 * room(block)[1] + 8 * slot

    def leaf_of(d: int) -> tuple[str, int]:
        """The leaf of the top level that holds a device."""
        for node, block, *_ in tree:
            if node.startswith("map-l"):
                n = room(block)[0]
                keys = struct.unpack(f"<{n}Q", meta.nodes[block][32 : 32 + 8 * n])
                if d in keys:
                    return node, slot_at(block, keys.index(d))
        raise RuntimeError("device without a leaf")

    for node, block, parent, slot, above in tree:
        if parent:
            up, where = parent, slot_at(block_of[parent], slot)
        elif node.startswith("map"):
            up, where = "sb", 320
        elif node.startswith("det"):
            up, where = "sb", 328
        else:
            up, where = leaf_of(owner[node.split("-")[0]])
        n, most, width = room(block)
        at = block * meta.size
        flags = (at + 4, lambda r: struct.pack("<I", r.choice([0, 4, 0x80000000, r.getrandbits(32) & ~3])))
        parts.append(Part(node, at, 32 + 8 * most + width * n, up, sig=[flags], ptr=[(where, le(8, meta.size))], loops=above))
    return Image("thin", blob2, parts, lambda fh: use_thin(devs, fh))


def mk_vss(rng: random.Random) -> Image:
    total = 300
    vol = vssimg.Volume(rng, total, total * vssimg.BLOCK, set())
    parts: list[Part] = []
    # the last block is left for the contents of the volume
    vol.taken.add(total - 1)
    entries = []
    links = []  # (name, first block, record type, used bytes per block, up, entry, offset of the link within the entry)
    for i in range(rng.choice([1, 2])):
        sid = rng.randbytes(16)
        count = rng.choice([3, 3, 520])
        lists = {
            "blocks": (3, b"".join(vol.descriptor(16384 * (1 + k), 16384 * (2000 + k), 16384 * k, 0, 0) for k in range(count)), 8),
            "ranges": (5, struct.pack("<QQQ", 16384, 0, 16384) * rng.choice([1, 700]), 40),
            "bitmap": (6, b"\xff" * (-(-total // 8)) + rng.choice([b"", b"\xff" * 16256]), 48),
            "prev": (6, b"\xff" * (-(-total // 8)), 72),
        }
        if i == 0 or rng.random() < 0.5:
            del lists["prev"]
        places = {}
        for name, (kind, data, where) in lists.items():
            places[name] = vol.chain(kind, data)
            links.append((f"{name}{i}", places[name], kind, len(data), f"store{i}", 2 * i + 1, where))
        store = vol.store_header(rng.randbytes(16), rng.randbytes(16), "machine", "svc")
        links.append((f"store{i}", store, 0, 88, "catalog", 2 * i + 1, 32))
        two = struct.pack("<QQ16sQQQ", 2, vol.size, sid, 0, 0, 10**17 + i) + rng.randbytes(72)
        three = struct.pack("<QQ16sQQQQQQQ", 3, places["blocks"], sid, store, places["ranges"], places["bitmap"], 0, 0, places.get("prev", 0), 0) + rng.randbytes(40)
        entries += [two, three]
    filler = rng.choice([0, 1, 130])
    raw = [struct.pack("<Q", 1) + rng.randbytes(120)] * filler + entries
    catalog = vol.chain(2, b"".join(raw))
    vol.header(catalog, rng.randbytes(16), rng.randbytes(16))
    blob = vol.blob
    parts.append(Part("header", 0x1E00, 128, sig=[sig(0x1E00, vssimg.ID)]))
    parts.append(Part("data", (total - 1) * vssimg.BLOCK, 16384 - 512, need=False))
    chain_at = []

    def chain(name: str, first: int, kind: int, used: int, up: str, ptr: list) -> None:
        offs = [first]
        while nxt := struct.unpack("<Q", blob.peek_at(offs[-1] + 40, 8))[0]:
            offs.append(nxt)
        for k, at in enumerate(offs):
            here = name if k == 0 else f"{name}-{k}"
            size = 128 + max(0, min(used - k * 16256, 16256))
            sigs = [sig(at, vssimg.ID)]
            if k == 0 and kind in (3, 5, 6):
                sigs.append(one(at + 20, struct.pack("<I", kind), lambda r: struct.pack("<I", r.choice([x for x in (0, 1, 2, 3, 4, 5, 6, 7, 256 + kind) if x != kind]))))
            parts.append(Part(here, at, size, up, sig=sigs, ptr=ptr, loops=[name if j == 0 else f"{name}-{j}" for j in range(k)]))
            up, ptr = here, [(at + 40, le(8))]
        if name == "catalog":
            chain_at.extend(offs)

    chain("catalog", catalog, 2, 128 * len(raw), "header", [(0x1E00 + 48, le(8))])
    first = next(p for p in parts if p.name == "catalog")
    first.sig.append((0x1E00 + 48, lambda r: bytes(8)))
    kinds = tuple(struct.pack("<Q", x) for x in range(4))
    for k in sorted({0, filler, filler + len(entries) - 1}):
        at = chain_at[k // 127] + 128 + 128 * (k % 127)
        kind = blob.peek_at(at, 8)
        first.sig.append(one(at, kind, lambda r: struct.pack("<Q", r.choice([4, 5, 255, 256, 1 << 32, 1 << 63])), kinds))
        first.marks.append((at, kind, kinds, "sig"))
    for name, first, kind, used, up, entry, where in links:
        k = filler + entry
        spot = chain_at[k // 127] + 128 + 128 * (k % 127) + where
        if blob.peek_at(spot, 8) != struct.pack("<Q", first):
            raise RuntimeError("layout of the catalog")
        chain(name, first, kind, used, up, [(spot, le(8))])
    return Image("vss", blob, parts, use_vss)


MAKERS = {
    "mbr": mk_mbr, "gpt": mk_gpt, "apm": mk_apm, "bsd32": lambda r: mk_bsd(r, False), "bsd64": lambda r: mk_bsd(r, True), "md": mk_md, "ddf": mk_ddf,
    "vinum": mk_vinum, "lvm": mk_lvm, "thin": mk_thin, "vss": mk_vss,
}  # fmt: skip
READERS = {"disk": lambda fh: use_disk(512, fh), "md": use_md, "ddf": lambda fh: use_ddf(512, fh), "vinum": use_vinum, "lvm": use_lvm, "thin": lambda fh: use_thin({0: 1}, fh), "vss": use_vss}


# -- replay --------------------------------------------------------------------------------------------------------------
def result(use: Callable, fh) -> tuple:
    """What the reader made of a device; running out of memory is not an answer."""
    try:
        return "accept", use(fh)
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        return "reject", f"{type(e).__name__}: {e}"


def faulty(img: Image, faults: list[dict], rng: random.Random) -> Blob:
    parts = img.parts
    blob = Blob(img.blob.length, img.blob.fill, hasattr(img.blob, "size"))
    blob.pages = {k: bytearray(v) for k, v in img.blob.pages.items()}
    length = blob.length
    for f in sorted(faults, key=lambda f: ("dup", "out", "loop", "sig", "cut").index(f["k"])):
        p = parts[f["i"] - 1]
        if f["k"] == "sig":
            off, bad = rng.choice(p.sig)[:2]
            blob.put(off, bad(rng))
        elif f["k"] in ("out", "loop"):
            far = (img.blob.length // 4096 + rng.choice([1, 2, 1000])) * 4096
            target = parts[f["j"] - 1].at if f["k"] == "loop" else far
            for off, enc in p.ptr:
                blob.put(off, enc(target))
        elif f["k"] == "dup":
            p.dup(blob)
        else:
            length = min(length, p.at if f["j"] == 0 else p.at + rng.choice([1, p.size - 1, rng.randint(1, p.size - 1)]))
    if length < blob.length:
        blob.length = length
        if hasattr(blob, "size"):
            blob.size = length
    return blob


def replay_faults(case: dict) -> None:
    img = MAKERS[case["fmt"]](random.Random(case["phys"]))
    rng = random.Random(f"{case['phys']}-{case['faults']}-{case['way']}")
    said = [f"{f['k']} {img.parts[f['i'] - 1].name}" + (f" -> {img.parts[f['j'] - 1].name}" if f["k"] == "loop" else f" {f['j']}" if f["k"] == "cut" else "") for f in case["faults"]]
    verdict, got = result(img.use, faulty(img, case["faults"], rng))
    ctx = f"{case['fmt']} {said} {got}"
    if case["verdict"] == "reject":
        expect(verdict == "reject", "a damaged image is an error", ctx)
        return
    expect(verdict == "accept", "an intact image is read", ctx)
    if case["faults"]:
        expect_eq(got, result(img.use, img.blob)[1], "parts that are not needed make no difference", ctx)


def replay_marks(case: dict) -> None:
    img = MAKERS[case["fmt"]](random.Random(case["phys"]))
    part = img.parts[case["part"]]
    off = part.marks[case["spot"]][0]
    value = bytes(case["faults"][0])
    img.blob.put(off, value)
    verdict, got = result(img.use, img.blob)
    expect_eq(verdict, case["verdict"], "signatures are accepted exactly", f"{case['fmt']} {part.name} {value!r} at {off - part.at}: {got}")


def blank(kind: str, rng: random.Random) -> Blob:
    if kind in ("empty", "byte", "sector"):
        return Blob({"empty": 0, "byte": 1, "sector": 512}[kind], rng.choice([0, 255, "x"]))
    return Blob(rng.choice([1000, 4096, 8192, 70000, 1 << 20, (1 << 22) + 5]), {"zeros": 0, "ones": 255, "noise": f"n{rng.random()}"}[kind])


def replay_foreign(case: dict) -> None:
    rng = random.Random(case["phys"])
    if case["fmt"] in MAKERS:
        img = MAKERS[case["fmt"]](rng)
        blob, use = img.blob, img.use if case["verdict"] == "accept" else READERS[case["reader"]]
    else:
        blob, use = blank(case["fmt"], rng), READERS[case["reader"]]
    verdict, got = result(use, blob)
    expect_eq(verdict, case["verdict"], "a reader takes its own format only", f"reader={case['reader']} image={case['fmt']} {got}")


def G02(ck: Check) -> None:
    rng = ck.rng
    per = ck.scale(12, 40)
    scen = []
    for fmt, make in MAKERS.items():
        shapes = set()
        mine = []
        for k in range(40 * per):
            phys = f"{ck.seed}-{fmt}-{k}"
            s = make(random.Random(phys)).scenario(phys)
            # prefers images that differ in more than contents
            if str(s["parts"]) in shapes and k < 39 * per:
                continue
            shapes.add(str(s["parts"]))
            mine.append(s)
            if len(mine) == per:
                break
        scen += mine
    recs = ck.model(tlc.run("Reject", {"Family": "faults"}, INV, scen, workers=8, timeout=800))
    cases = []
    for fmt in MAKERS:
        mine = sorted((r for r in recs if r["fmt"] == fmt), key=str)
        rng.shuffle(mine)
        # all single faults in several ways, and a sample of the combinations
        single = [r for r in mine if len(r["faults"]) != 2]
        double = [r for r in mine if len(r["faults"]) == 2][: ck.scale(1200, 12000)]
        cases += [dict(r, phys=r["id"], way=w) for r in single for w in range(ck.scale(3, 8))] + [dict(r, phys=r["id"], way=0) for r in double]
    ck.run("faults", cases, replay_faults, limit=20)
    marks = []
    for fmt, make in MAKERS.items():
        for k in range(ck.scale(2, 12)):
            phys = f"{ck.seed}-{fmt}-m{k}"
            for i, p in enumerate(make(random.Random(phys)).parts):
                marks += [{"id": phys, "fmt": fmt, "part": i, "spot": j, "kind": m[3], "value": list(m[1]), "valid": [list(v) for v in m[2] if v != m[1]]} for j, m in enumerate(p.marks)]
    recs = ck.model(tlc.run("Reject", {"Family": "marks"}, INV, marks, workers=8, timeout=800))
    recs.sort(key=str)
    ck.run("marks", [dict(r, phys=r["id"]) for r in recs], replay_marks, limit=20)
    recs = ck.model(tlc.run("Reject", {"Family": "foreign"}, INV, [], workers=1))
    recs.sort(key=str)
    ck.run("foreign", [dict(r, phys=f"{ck.seed}-{r['fmt']}-{i}") for r in recs for i in range(ck.scale(6, 40))], replay_foreign, limit=20)


REPLAY = {"faults": replay_faults, "marks": replay_marks, "foreign": replay_foreign}
