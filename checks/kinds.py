"""One volume of every stream kind, with its reference content, for operation histories."""

from __future__ import annotations

import functools
import random
import uuid
from dataclasses import dataclass, field
from typing import Callable

import ddf
import lvm
import md
import raid
import thin
import vinum
import vss
from vlib import tlc
from vlib.blob import Blob, noise
from vlib.harness import Check, Mismatch
from vlib.parts import apm_driver, apm_entry, bsd32, bsd64, gpt_entry, gpt_header, mbr_sector

from dissect.volume.ddf.ddf import DDF
from dissect.volume.disk import Disk
from dissect.volume.lvm import LVM2
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import Vinum
from dissect.volume.vss import VSS


@dataclass
class View:
    """Something that can be opened; ``grain`` is a size at which its layout changes, ``below`` the handles it reads from."""

    open: Callable
    content: Callable[[int, int], bytes]
    size: int
    grain: int = 512
    below: list = field(default_factory=list)
    scale: int = 1  # unit of positions and lengths; more than a byte for what cannot be read as a whole


class Volume:
    def __init__(self, views: list[View]):
        self.views = views
        self.count = len(views)
        self.even = [v for v in views if v.size and v.size % 12 == 0 and v.scale == 1]

    def opener(self, i: int) -> View:
        return self.views[i]


def of_bytes(data: bytes) -> Callable[[int, int], bytes]:
    return lambda pos, n: data[pos : pos + n]


def of_blob(blob: Blob, at: int, size: int) -> Callable[[int, int], bytes]:
    return lambda pos, n: blob.peek_at(at + pos, min(n, max(0, size - pos)))


def partitions(disk: Disk, blob: Blob, places: list[tuple[int, int]]) -> Volume:
    if len(disk.partitions) != len(places):
        raise Mismatch("partitions listed", f"{len(disk.partitions)} partitions, expected {len(places)}")
    return Volume([View(p.open, of_blob(blob, at, size), size, 4096, [blob]) for p, (at, size) in zip(disk.partitions, places)])


def mk_mbr(variant: int) -> Volume:
    ss = (512, 4096, 512)[variant]
    blob = Blob(1 << 30, f"mbr{variant}")
    slots = [{"t": 0x83, "ofs": 2048, "sz": 12 * 5}, {"t": 7, "ofs": 8191, "sz": 12}, {"t": 5, "ofs": 10000, "sz": 3000}, {"t": 1, "ofs": 20001, "sz": 36}]
    blob.put(0, mbr_sector(slots))
    blob.put(10000 * ss, mbr_sector([{"t": 0x83, "ofs": 3, "sz": 60}] + [{"t": 0, "ofs": 0, "sz": 0}] * 3))
    return partitions(Disk(blob, ss), blob, [(2048 * ss, 12 * 5 * ss), (8191 * ss, 12 * ss), (10003 * ss, 60 * ss), (20001 * ss, 36 * ss)])


def mk_gpt(variant: int) -> Volume:
    ss = (512, 4096)[variant]
    blob = Blob(1 << 30, f"gpt{variant}")
    none = {"t": 0, "ofs": 0, "sz": 0}
    blob.put(0, mbr_sector([{"t": 0xEE, "ofs": 1, "sz": 0xFFFFFFFF}, none, none, none]))
    blob.put(ss, gpt_header(2, 2, 128))
    blob.put(2 * ss, gpt_entry(uuid.UUID(int=5), uuid.UUID(int=6), 2049, 2049 + 24, 0, [65])
             + gpt_entry(uuid.UUID(int=5), uuid.UUID(int=7), 4000, 4000 + 48, 0, [66]))
    disk = Disk(blob, ss)
    # the sizes themselves are decided by D02 (known finding: one sector short)
    return partitions(disk, blob, [(2049 * ss, disk.partitions[0].size), (4000 * ss, disk.partitions[1].size)])


def mk_apm(variant: int) -> Volume:
    bs = (512, 2048)[variant]
    blob = Blob(1 << 30, f"apm{variant}")
    blob.put(0, apm_driver(bs))
    blob.put(bs, apm_entry(3, 1, 60, b"Apple", b"Apple_partition_map"))
    blob.put(2 * bs, apm_entry(3, 500, 0, b"empty", b"Apple_Free"))
    blob.put(3 * bs, apm_entry(3, 777, 84, b"disk", b"Apple_HFS"))
    return partitions(Disk(blob), blob, [(bs, 60 * bs), (500 * bs, 0), (777 * bs, 84 * bs)])


def mk_bsd(variant: int) -> Volume:
    blob = Blob(1 << 30, f"bsd{variant}")
    none = {"t": 0, "ofs": 0, "sz": 0}
    empty = {"off": 0, "sz": 0, "fs": 0}
    if variant < 2:
        base = 63
        label = bsd32([{"off": base + 16, "sz": 36, "fs": 7}, empty, {"off": base, "sz": 9000, "fs": 0}, {"off": base + 101, "sz": 120, "fs": 1}] + [empty] * 4)
        places = [(16 * 512, 36 * 512), (101 * 512, 120 * 512)]
    else:
        label = bsd64([{"off": 16384, "sz": 12 * 1000, "fs": 7}, empty, empty, {"off": 100001, "sz": 12 * 4096, "fs": 22}])
        places = [(16384, 12 * 1000), (100001, 12 * 4096)]
    at = 0
    if variant % 2:
        at = 63 * 512
        blob.put(0, mbr_sector([{"t": 0xA5, "ofs": 63, "sz": 9000}, none, none, none]))
    else:
        blob.put(0, b"\x00" * 512)
    blob.put(at + 512, label)
    return partitions(Disk(blob), blob, [(at + o, s) for o, s in places])


def mk_wide(variant: int) -> Volume:
    """Partitions of gigabytes and more."""
    blob = Blob(1 << 60, f"wide{variant}")
    none = {"t": 0, "ofs": 0, "sz": 0}
    if variant == 0:
        blob.put(0, mbr_sector([{"t": 7, "ofs": 2048, "sz": 0xB0000000}, {"t": 0x83, "ofs": 0xB0000800, "sz": 0x4FFFF000}, none, {"t": 0x83, "ofs": 63, "sz": 0x10000}]))
        places = [(2048 * 512, 0xB0000000 * 512), (0xB0000800 * 512, 0x4FFFF000 * 512), (63 * 512, 0x10000 * 512)]
    elif variant == 1:
        blob.put(0, mbr_sector([{"t": 0xEE, "ofs": 1, "sz": 0xFFFFFFFF}, none, none, none]))
        blob.put(512, gpt_header(2, 2, 128))
        blob.put(1024, gpt_entry(uuid.UUID(int=5), uuid.UUID(int=6), 1 << 40, (1 << 40) + (1 << 33), 0, [65]) + gpt_entry(uuid.UUID(int=5), uuid.UUID(int=7), 2048, 2048 + (1 << 25), 0, [66]))
        places = [(1 << 49, None), (2048 * 512, None)]
    elif variant == 2:
        blob.put(0, apm_driver(2048))
        blob.put(2048, apm_entry(2, 1, 64, b"Apple", b"Apple_partition_map"))
        blob.put(4096, apm_entry(2, 0xC0000001, 0x30000000, b"disk", b"Apple_HFS"))
        places = [(2048, 64 * 2048), (0xC0000001 * 2048, 0x30000000 * 2048)]
    else:
        empty = {"off": 0, "sz": 0, "fs": 0}
        blob.put(512, bsd64([{"off": (1 << 45) + 512, "sz": 1 << 42, "fs": 7}, empty, empty, {"off": 1 << 20, "sz": 1 << 33, "fs": 22}]))
        places = [((1 << 45) + 512, 1 << 42), (1 << 20, 1 << 33)]
    disk = Disk(blob)
    vol = partitions(disk, blob, [(at, size or p.size) for (at, size), p in zip(places, disk.partitions)])
    for v in vol.views:
        v.scale = 512 if v.size % 4096 else 4096
    vol.even = []
    return vol


# -- volumes whose layout comes from the specifications ------------------------------------------------------------------
RECS: dict[str, list] = {}
SETUPS = [
    # level, layout, member sizes in chunks, missing
    (-1, 0, (4, 1, 7), ()), (0, 0, (3, 3, 3), ()), (0, 1, (5, 2, 5, 4), ()), (0, 2, (1, 6), ()), (1, 0, (6, 6), ()), (1, 0, (6, 6, 6), (0, 1)),
    (4, 0, (4, 4, 4, 4), ()), (5, 2, (6, 6, 6), ()), (5, 1, (5, 5, 5, 5), ()), (5, 5, (4, 4, 4, 4), ()), (6, 2, (6, 6, 6, 6), ()), (6, 10, (6,) * 5, ()), (6, 18, (7,) * 5, ()),
    (10, raid.near_far(2, 1), (6,) * 3, ()), (10, raid.near_far(1, 2), (6,) * 3, ()), (10, raid.near_far(1, 2, 1), (6,) * 4, ()), (10, raid.near_far(2, 1), (6,) * 4, (1, 3)),
    (10, raid.near_far(2, 2), (6,) * 4, ()),
]  # fmt: skip
MD_SETS = [(5, 2, (6,) * 4), (0, 0, (3, 5, 4)), (10, raid.near_far(1, 2), (6,) * 3), (6, 2, (6,) * 5), (-1, 0, (2, 5))]
DDF_SETS = {(5, 2, (6,) * 4): (5, 3), (6, 10, (6,) * 5): (6, 3), (0, 0, (3,) * 3): (0, 0)}
VSS_OPS = ["snap", "write", "write", "move", "free", "snap", "amend", "write", "write", "snap", "move", "amend", "write"]


def prepare(ck: Check) -> None:
    """Layouts, placements and histories of the specifications for the volumes used here."""
    if RECS:
        return
    fams: dict[str, list] = {}
    wanted = [(lvl, lay, sz) for lvl, lay, sz, _ in SETUPS] + MD_SETS + [(lvl, 0, (rows,) * n) for lvl in (0, 5) for n in range(2, 5) for rows in range(1, 13)]
    for i, (lvl, lay, sz) in enumerate(dict.fromkeys(wanted)):
        fam = {-1: "linear", 0: "raid0", 1: "linear", 10: "raid10"}.get(lvl, "parity")
        fams.setdefault(fam, []).append(raid.cfg(f"k{i}", lvl, lay, len(sz), sz))
    layouts = {}
    for fam, items in fams.items():
        for r in ck.model(tlc.run("Raid", {"Family": fam, "CU": 2, "MaxN": 1, "MaxSz": 1}, raid.INVARIANTS, items, workers=8)):
            layouts[r["lvl"], r["lay"], tuple(r["sz"])] = r
    RECS["raid"] = [dict(layouts[lvl, lay, sz], gone=list(gone)) for lvl, lay, sz, gone in SETUPS]
    RECS["md"] = [layouts[x] for x in MD_SETS]
    RECS["ddf"] = [layouts[x] for x in DDF_SETS]
    rng = random.Random(f"kinds-{ck.seed}")
    maps = [lvm.random_map(rng, f"k{i}", False) for i in range(40)]
    recs = ck.model(tlc.run("Lvm", {"Family": "random"}, lvm.MAP, maps, workers=8))
    recs.sort(key=lambda r: r["id"])

    def types(r: dict) -> set:
        return {s["t"] for lv in r["lvs"] for s in lv} | {"wide" for lv in r["lvs"] for s in lv if s["t"] == "striped" and len(s["areas"]) > 1}

    RECS["lvm"] = [r for r in recs if {"wide", "mirror"} <= types(r) and "thin" not in types(r)][:3] + [r for r in recs if "thin" in types(r)][:2]
    n = 5
    hist = []
    for i in range(3):
        hist.append({"id": f"k{i}", "n": n, "used": [0, 1, 3], "ops": [{"op": o, "b": rng.randrange(n), "c": rng.randrange(n), "s": rng.randint(1, 1 + VSS_OPS[:j].count("snap") // 2), "p": rng.randint(1, 2)} for j, o in enumerate(VSS_OPS)]})
    RECS["vss"] = sorted(ck.model(tlc.run("Vss", {"Ops": set(), "MaxOps": 0, "NBlocks": 1, "MaxSnaps": 3, "UsedSets": {frozenset()}}, vss.INV, hist, workers=8)), key=lambda r: r["id"])
    farms = []
    for i, (orgs, st) in enumerate(((["concat", "striped"], "up"), (["raid5"], "up"), (["striped", "raid5", "concat"], "up"))):
        objs = []
        sd = 0
        for v in (1, 2):
            objs.append({"k": "v", "n": v, "par": 0, "st": st, "org": "", "drv": 0, "po": 0})
            for org in orgs if v == 1 else orgs[:1]:
                p = 1 + sum(o["k"] == "p" for o in objs)
                objs.append({"k": "p", "n": p, "par": v, "st": "up", "org": org, "drv": 0, "po": 0})
                for j in range(3):
                    sd += 1
                    objs.append({"k": "s", "n": sd, "par": p, "st": "up", "org": "", "drv": 1 + (j + v) % 3, "po": j * 100})
        farms.append({"id": f"k{i}", "vers": [{"t": 1, "objs": objs}], "drives": [{"act": True, "ver": 1}] * 3, "order": [2, 3, 1]})
    recs = sorted(ck.model(tlc.run("Vinum", {"Family": "random"}, vinum.INV, farms, workers=8)), key=lambda r: r["id"])
    for r in recs:
        t = 0
        while True:
            r["phys"] = f"kind-vinum-{r['id']}-{t}"
            geo = vinum.geometry(r).values()
            need = {w for g in geo if (w := vinum.wanted_layout(g))}
            if not any(g["wins"] for g in geo) and all((lvl, 0, (rows,) * n) in layouts for lvl, n, rows, _ in need):
                break
            t += 1
        r["layouts"] = {w: layouts[w[0], 0, (w[2],) * w[1]] for w in need}
    RECS["vinum"] = recs
    if [r for r in RECS.values() if not r] or len(RECS["lvm"]) < 5:
        raise RuntimeError("no layouts")


def mk_raid(variant: int) -> Volume:
    rec = RECS["raid"][variant]
    t = 0
    while True:
        b = raid.Built(dict(rec, phys=f"kind-raid-{variant}-{t}"))
        if b.size % 12 == 0 and b.size <= 1 << 18 and (rec["lvl"] != 1 or not any(f[2] for f in b.fhs)):
            break
        t += 1
    vd = b.disk(rec["gone"])
    return Volume([View(vd.open, b.expected, b.size, b.chunk, [d.fh for _, d in vd.disk_map.values()])])


def mk_md(variant: int) -> Volume:
    lay = RECS["md"][variant]
    n = lay["n"]
    ids = list(range(1, n + 1))
    case = {"sets": [{"set": 1, "chosen": ids, "newest": ids, "sources": ids, "devs": ids}], "layouts": [lay], "members": [{"set": 1, "role": i, "ev": 6, "rec": False} for i in range(n)]}
    t = 0
    while True:
        s = md.Set(dict(case, phys=f"kind-md-{variant}-{t}"), 1)
        if s.size <= 1 << 19:
            break
        t += 1
    fhs = [s.devs[d] for d in ids[1:] + ids[:1]]
    vd = MD(fhs).configurations[0].virtual_disks[0]
    content = b"".join(s.content)
    # sizes are decided by M02
    return Volume([View(vd.open, of_bytes(content), min(vd.size, s.size), s.chunk, fhs)])


def mk_ddf(variant: int) -> Volume:
    lay = RECS["ddf"][variant]
    n = lay["n"]
    prl, rlq = list(DDF_SETS.values())[variant]
    ids = list(range(1, n + 1))
    mp = [{"idx": i, "disk": i + 1, "start": i % 3} for i in range(n)]
    rec = {"grp": 1, "vd": 1, "seq": 1, "sec": 0, "nsec": 1, "pec": n, "refs": ids, "starts": [i % 3 for i in range(n)]}
    case = {"recs": [rec], "disks": [{"grp": 1, "ref": d, "hseq": 1, "slots": [1]} for d in ids], "order": ids, "phys": f"kind-ddf-{variant}",
            "layouts": [(lay, {"prl": prl, "rlq": rlq, "srl": 0})], "vds": [{"grp": 1, "vd": 1, "geo": [1], "map": mp, "names": ids}]}  # fmt: skip
    w = ddf.World(case)
    chunk = w.ss << w.geo[1][2]
    blobs = {d: w.disk(d) for d in ids}
    content = [noise((case["phys"], i), chunk) for i in range(lay["chunks"])]
    for i, places in enumerate(lay["places"]):
        for p in places:
            blobs[p["m"] + 1].put(w.start(mp[p["m"]]["start"]) * w.ss + p["r"] * chunk, content[i])
    vd = DDF([blobs[d] for d in ids], w.ss).configurations[0].virtual_disks[0]
    return Volume([View(vd.open, of_bytes(b"".join(content)), lay["chunks"] * chunk, chunk, list(blobs.values()))])


def mk_vinum(variant: int) -> Volume:
    rec = RECS["vinum"][variant]
    f = vinum.Farm(rec, rec["layouts"])
    below = [f.blobs[d] for d in rec["order"]]
    got = {vd.name: vd for vd in Vinum(below).configurations[0].virtual_disks}
    views = []
    for v in rec["vols"]:
        vd = got[f.names["v"][v["vol"]].decode(errors="backslashreplace")]
        data = f.content[v["vol"]]
        views.append(View(vd.open, data.peek_at, data.length, 512, below))
    return Volume(views)


def mk_lvm(variant: int) -> Volume:
    rec = RECS["lvm"][variant]
    t = 0
    while True:
        f = lvm.Farm(random.Random(f"kind-lvm-{variant}-{t}"), rec)
        if not f.no_text and (f.thin or max(f.size(i) for i in range(1, len(rec["lvs"]) + 1)) <= 1 << 18):
            break
        t += 1
    below = [f.blobs[p] for p in rec["order"]]
    vg = LVM2(below).vg
    views = []
    for i in range(1, len(rec["lvs"]) + 1):
        if rec["out"][i - 1]["ok"] and (not f.thin or i in f.thin):
            views.append(View(vg.logical_volumes[f.lvname[i]].open, functools.partial(f.expected, i), f.size(i), f.thin[i][1] if i in f.thin else f.unit, below))
    return Volume(views)


def mk_thin(variant: int) -> Volume:
    rng = random.Random(f"kind-thin-{variant}")
    maps = {d: {b: rng.randint(1, 9) for b in range(12) if rng.random() < 0.6} for d in (0, 3, 77)}
    p = thin.sample_pool(rng, maps)
    pool = p.open()
    size = (12 * p.block, 12 * p.block - 12 * 37, 18 * p.block)[variant % 3]
    return Volume([View(functools.partial(pool.open, d, size), lambda pos, n, d=d: p.expected(d, pos, n, size), size, p.block, [p.meta, p.data]) for d in maps])


def mk_vss(variant: int) -> Volume:
    rec = RECS["vss"][variant]
    t = 0
    while True:
        img = vss.Image(random.Random(f"kind-vss-{variant}-{t}"), rec)
        if all(n % 12 == 0 for n in img.sizes) and img.size < 1 << 22:
            break
        t += 1
    stores = VSS(img.vol.blob).catalog.stores
    return Volume([View(s.open, functools.partial(img.window, i), img.sizes[i], vss.BLOCK, [img.vol.blob]) for i, s in enumerate(stores)])


MAKERS: dict[str, tuple[Callable[[int], Volume], int]] = {
    "mbr": (mk_mbr, 3),
    "gpt": (mk_gpt, 2),
    "apm": (mk_apm, 2),
    "bsd": (mk_bsd, 4),
    "raid": (mk_raid, len(SETUPS)),
    "md": (mk_md, len(MD_SETS)),
    "ddf": (mk_ddf, len(DDF_SETS)),
    "vinum": (mk_vinum, 3),
    "lvm": (mk_lvm, 5),
    "thin": (mk_thin, 4),
    "vss": (mk_vss, 3),
    "wide": (mk_wide, 4),
}
PARTITIONS = ["mbr", "gpt", "apm", "bsd", "wide"]
VARIANTS = {k: v[1] for k, v in MAKERS.items()}


@functools.lru_cache(None)
def make(kind: str, variant: int) -> Volume:
    return MAKERS[kind][0](variant)
