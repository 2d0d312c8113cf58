"""F01: DDF assemblies emitted by Ddf.tla (with layouts of Raid.tla) built as real disks and read back."""

from __future__ import annotations

import random
from datetime import datetime, timedelta, timezone

import raid
from vlib import ddfimg, tlc
from vlib.blob import Blob, noise
from vlib.harness import Check, expect, expect_bytes, expect_eq, outcome

from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk

INV = ["OrderIndependent", "NothingHidden", "IndexesDisjoint", "Emit"]
EPOCH = datetime(1980, 1, 1, tzinfo=timezone.utc)
KEEP = ("lvl", "lay", "n", "sz", "chunks", "places", "probes")


class World:
    def __init__(self, case: dict):
        self.case = case
        rng = self.rng = random.Random(case["phys"])
        self.ss = rng.choice([512, 512, 4096])
        self.issued = set()
        # identifiers have parts in common: the vendor, the controller, the time
        self.like = rng.randbytes(24) if rng.random() < 0.5 else None
        self.headers = {g: self.guid() for g in range(1, 21)}
        self.pd_refs = {}
        self.geo = {}
        self.guids = {}
        self.names = {}
        self.content = {}
        unit = 1
        for v in case["vds"]:
            key = (v["grp"], v["vd"])
            self.guids[key] = self.guid()
        for i, r in enumerate(case["recs"], 1):
            key = (r["grp"], r["vd"])
            self.guids.setdefault(key, self.guid())
            lay, code = case["layouts"][i - 1]
            strip = rng.randint(0, 5)
            if r["nsec"] > 1:  # all secondary elements of a virtual disk have the same geometry
                strip = 1 + r["vd"] % 3
            self.geo[i] = (lay, code, strip)
            unit = max(unit, max(lay["sz"]) << strip)
        self.unit = unit + rng.randint(0, 3)
        self.extra = rng.choice([0, 0, 1 << 33])  # starting blocks beyond 32 bits
        self.uni = {}
        for key in self.guids:
            uni = rng.random() < 0.5
            name = rng.choice(["vd", "name with sp", "x" * 16, " lead"]) + ""
            if uni:
                name = rng.choice([name, "naïve-δ", "日本"])
            self.uni[key] = uni
            self.names[key] = name

    def guid(self) -> bytes:
        rng = self.rng
        if not self.like:
            return rng.randbytes(24)
        while True:
            guid = bytearray(self.like)
            guid[rng.randrange(24)] = rng.randrange(256)
            if bytes(guid) not in self.issued:
                self.issued.add(bytes(guid))
                return bytes(guid)

    def ref(self, grp: int, r: int) -> int:
        if r < 0:
            return 0xFFFFFFFF
        if (grp, r) not in self.pd_refs:
            rng = self.rng
            new = rng.getrandbits(32)
            if self.like:  # alike in all but one byte
                new = int.from_bytes(self.like[:4], "big") ^ rng.randrange(256) << rng.choice([0, 8, 16, 24])
            if new in (0, 0xFFFFFFFF) or new in self.pd_refs.values():
                return self.ref(grp, r)
            self.pd_refs[grp, r] = new
        return self.pd_refs[grp, r]

    def start(self, s: int) -> int:
        return s * self.unit + (self.extra if s else 0)

    def disk(self, d: int) -> Blob:
        """Metadata of one disk; data is written afterwards."""
        case, rng, ss = self.case, self.rng, self.ss
        disk = case["disks"][d - 1]
        g = disk["grp"]
        data_blocks = self.start(max([12] + [s for r in case["recs"] for s in r["starts"]])) + self.unit
        base = data_blocks + rng.randint(0, 9)
        mppe = max([len(r["refs"]) for r in case["recs"]] + [4]) + rng.randint(0, 9)
        rec_len = -(-(512 + 12 * mppe) // ss) + rng.choice([0, 0, 1])
        pos = 1
        place = {}
        mates = [x for x in case["disks"] if x["grp"] == g]
        vds = sorted(k for k in self.guids if k[0] == g)
        sizes = {
            "controller": 1, "pdr": -(-(64 + 64 * (len(mates) + 6)) // ss), "vdr": -(-(64 + 64 * (len(vds) + 8)) // ss),
            "conf": rec_len * len(disk["slots"]) + rng.choice([0, 0, rec_len - 1]), "pdd": 1, "bbm": 1, "diag": 1, "logs": 1,
        }  # fmt: skip
        names = list(sizes)
        rng.shuffle(names)
        for name in names:
            pos += rng.randint(0, 2)
            place[name] = (pos, sizes[name])
            pos += sizes[name]
        secondary = rng.random() < 0.3
        total = base + pos + rng.randint(0, 5) + (1 if secondary else 0) + 1
        hf = dict(place, guid=self.headers[g], seq=disk["hseq"], primary=base, secondary=total - 2 if secondary else ddfimg.ALL,
                  workspace=base + 7, rec_len=rec_len, mppe=mppe)  # fmt: skip
        blob = Blob(total * ss, f"{case['phys']}-{d}")
        blob.put(base * ss, ddfimg.header(hf, 1))
        if secondary:
            blob.put((total - 2) * ss, ddfimg.header(hf, 2))
        # the anchor is not written along with every change
        blob.put((total - 1) * ss, ddfimg.header(dict(hf, seq=rng.choice([hf["seq"], 0xFFFFFFFF, rng.randrange(20)])), 0))

        def put(name: str, data: bytes, off: int = 0) -> None:
            blob.put((base + place[name][0]) * ss + off, data)

        put("controller", ddfimg.controller(rng.randbytes(24)))
        guids = {m["ref"]: noise((case["phys"], g, m["ref"]), 24) for m in mates}
        pbs = rng.choice([0xFFFF, ss])
        entries = [ddfimg.pde(guids[m["ref"]], self.ref(g, m["ref"]), 0x2002, 1, data_blocks if m["ref"] == disk["ref"] else 1, pbs if m["ref"] == disk["ref"] else 520) for m in mates]
        put("pdr", self.table(0x22222222, entries))
        entries = []
        for n, key in enumerate(vds):
            flags = (4 if self.uni[key] else 0) | rng.choice([0, 1, 2, 3, 8])
            fresh = [v["names"] for v in case["vds"] if (v["grp"], v["vd"]) == key]
            name = self.names[key].encode()
            if fresh and d not in fresh[0]:
                name = b"outdated"
            entries.append(ddfimg.vde(self.guids[key], n, flags, 0, 2, name))
        if rng.random() < 0.3:
            entries.append(ddfimg.vde(rng.randbytes(24), 77, 0, 2, 0, b"noconf"))
        put("vdr", self.table(0xDDDDDDDD, entries))
        for s, r in enumerate(disk["slots"]):
            if r == 0:
                sig = rng.choice([0xFFFFFFFF, 0x55555555, 0x88888888, 0])
                data = sig.to_bytes(4, "big") + rng.choice([b"\xff", b"\x00", b"\x01"]) * (rec_len * ss - 4)
            else:
                data = ddfimg.vdcr(self.record(r), mppe, rec_len * ss)
            put("conf", data, s * rec_len * ss)
        put("pdd", ddfimg.pdd(guids[disk["ref"]], self.ref(g, disk["ref"])))
        return blob

    def table(self, sig: int, entries: list[bytes]) -> bytes:
        rng = self.rng
        entries = list(entries)
        rng.shuffle(entries)
        populated = len(entries)
        for _ in range(rng.choice([0, 0, 1, 3])):  # entries of removed disks
            entries.insert(rng.randrange(len(entries) + 1), b"\xff" * 64)
        return ddfimg.table(sig, populated, len(entries) + rng.randint(0, 2), entries)

    def record(self, i: int) -> dict:
        r = self.case["recs"][i - 1]
        lay, code, strip = self.geo[i]
        rng = random.Random(f"{self.case['phys']}-rec{i}")
        chunk = 1 << strip
        return {
            "guid": self.guids[r["grp"], r["vd"]], "time": rng.getrandbits(29), "seq": r["seq"], "pec": r["pec"], "strip": strip,
            "prl": code["prl"], "rlq": code["rlq"], "srl": code["srl"], "nsec": r["nsec"], "sec": r["sec"],
            "blocks": lay["sz"][0] * chunk, "size": lay["chunks"] * chunk, "bs": rng.choice([0xFFFF, self.ss]),
            "refs": [self.ref(r["grp"], x) for x in r["refs"]],
            "starts": [self.start(s) if x >= 0 else ddfimg.ALL for x, s in zip(r["refs"], r["starts"])],
        }  # fmt: skip


def replay_assemble(case: dict) -> None:
    w = World(case)
    rng = w.rng
    blobs = {d: w.disk(d) for d in case["order"]}
    want = {}
    for v in case["vds"]:
        key = (v["grp"], v["vd"])
        geo = v["geo"][0]
        lay, _, strip = w.geo[geo]
        chunk = w.ss << strip
        idx = lay["probes"] or range(lay["chunks"])  # the chunks that are laid out
        content = [noise((case["phys"], key, i), chunk) for i in idx]
        members = {m["idx"]: m for m in v["map"]}
        for i in range(len(idx)):
            for p in lay["places"][i]:
                if m := members.get(p["m"]):
                    blobs[m["disk"]].put(w.start(m["start"]) * w.ss + p["r"] * chunk, content[i])
        want[w.guids[key].hex()] = (v, lay, chunk, b"".join(content), w.names[key])
    fhs = [blobs[d] for d in case["order"]]
    fhs = [DDFPhysicalDisk(fh, w.ss) if rng.random() < 0.1 else fh for fh in fhs]
    one = len(fhs) == 1 and rng.random() < 0.5
    if w.ss == 512 and rng.random() < 0.5:
        ddf = DDF(fhs[0] if one else fhs)
    else:
        ddf = DDF(fhs[0] if one else fhs, w.ss)
    ctx = f"order={case['order']} slots={[d['slots'] for d in case['disks']]} sector={w.ss}"
    groups = {case["disks"][d - 1]["grp"] for d in case["order"]}
    expect_eq(len(ddf.configurations), len(groups), "one configuration per DDF header", ctx)
    seen = {}
    for conf in ddf.configurations:
        ids = {id(p.fh) for p in conf.physical_disks}
        mates = [d for d in case["order"] if id(blobs[d]) in ids]
        expect_eq(len({case["disks"][d - 1]["grp"] for d in mates}), 1, "members of one configuration", ctx)
        expect_eq(len(ids), sum(1 for d in case["order"] if case["disks"][d - 1]["grp"] == case["disks"][mates[0] - 1]["grp"]), "members of one configuration", ctx)
        for vd in conf.virtual_disks:
            expect(vd.uuid not in seen, "every virtual disk once", ctx)
            seen[vd.uuid] = vd
    # a virtual disk without any of its members has nothing to show
    empty = {uuid for uuid, (v, *_) in want.items() if not v["map"]}
    expect_eq(sorted(set(seen) - empty), sorted(set(want) - empty), "virtual disks", ctx)
    for uuid in empty & set(seen):
        st, _ = outcome(lambda vd: vd.open().read(1), seen[uuid])
        expect(st == "err" or want[uuid][1]["chunks"] == 0, "no data without members", ctx)
    for uuid, (v, lay, chunk, content, name) in want.items():
        if uuid in empty:
            continue
        vd = seen[uuid]
        c2 = f"vd={v['vd']} lvl={lay['lvl']} lay={lay['lay']} n={lay['n']} sz={lay['sz']} chunk={chunk} map={v['map']} {ctx}"
        expect_eq((vd.name, vd.size, vd.level, vd.stripe_size, vd.num_disks), (name, lay["chunks"] * chunk, lay["lvl"], chunk, lay["n"]), "description of the virtual disk", c2)
        if lay["lvl"] in (5, 6, 10):
            expect_eq(vd.layout, lay["lay"], "layout", c2)
        if lay["probes"]:
            fh = vd.open()
            for j, k in enumerate(lay["probes"]):
                a = rng.choice([0, rng.randrange(chunk)])
                fh.seek(k * chunk + a)
                expect_bytes(fh.read(chunk - a), content[j * chunk + a : (j + 1) * chunk], "contents of the virtual disk (far)", f"chunk={k} pos={a} {c2}")
            continue
        n = len(content)
        if lay["lvl"] != 1 and len(v["map"]) < lay["n"]:
            expect_eq(sorted(vd.disk_map), sorted(m["idx"] for m in v["map"]), "members of the virtual disk", c2)
            raid.right_or_error(vd, content, chunk, c2)
            continue
        fh = vd.open()
        expect_bytes(fh.read(n), content, "contents of the virtual disk", c2)
        for _ in range(3):
            pos = rng.randrange(n)
            k = rng.randint(1, n - pos)
            fh.seek(pos)
            expect_bytes(fh.read(k), content[pos : pos + k], "contents of the virtual disk (window)", f"pos={pos} n={k} {c2}")


CODES = {(-1, 0): (31, 0), (0, 0): (0, 0), (10, 258): (17, 0), (10, 513): (17, 1), (4, 0): (4, 1), (5, 1): (5, 0), (5, 0): (5, 2), (5, 2): (5, 3),
         (6, 8): (6, 1), (6, 9): (6, 2), (6, 10): (6, 3)}  # fmt: skip


def code_of(lay: dict) -> tuple[int, int] | None:
    """Level and qualifier of a layout of Raid.tla, if there is one and all members are used alike."""
    if len(set(lay["sz"])) > 1 or lay["probes"]:
        return None
    if lay["lvl"] == 1:
        return {2: (1, 0), 3: (1, 1)}.get(lay["n"])
    return CODES.get((lay["lvl"], lay["lay"]))


def incomplete(case: dict, gone: set) -> tuple:
    """A virtual disk of the given layout some of whose disks are not supplied."""
    n = case["n"]
    prl, rlq = code_of(case)
    rng = random.Random(case["phys"])
    starts = [rng.randrange(4) for _ in range(n)]
    order = [m + 1 for m in range(n) if m not in gone]
    rng.shuffle(order)
    world = {
        "phys": case["phys"], "order": order, "layouts": [(case, {"prl": prl, "rlq": rlq, "srl": 0})],
        "recs": [{"grp": 1, "vd": 1, "seq": 1, "sec": 0, "nsec": 1, "pec": n, "refs": list(range(1, n + 1)), "starts": starts}],
        "disks": [{"grp": 1, "ref": m + 1, "hseq": 1, "slots": [1]} for m in range(n)],
        "vds": [{"grp": 1, "vd": 1, "names": list(range(1, n + 1))}],
    }  # fmt: skip
    w = World(world)
    blobs = {d: w.disk(d) for d in order}
    chunk = w.ss << w.geo[1][2]
    content = [noise((case["phys"], i), chunk) for i in range(case["chunks"])]
    for i, places in enumerate(case["places"]):
        for p in places:
            if p["m"] + 1 in blobs:
                blobs[p["m"] + 1].put(w.start(starts[p["m"]]) * w.ss + p["r"] * chunk, content[i])

    def open_():
        (conf,) = DDF([blobs[d] for d in order], w.ss).configurations
        return conf.virtual_disks[0].open()

    return open_, content, chunk


def replay_reject(case: dict) -> None:
    rng = random.Random(case["phys"])
    ss = rng.choice([512, 4096])
    blob = Blob(ss * rng.randint(2, 50), case["phys"])
    st, _ = outcome(DDF, blob, ss)
    expect(st == "err", "a disk without an anchor is rejected", case["phys"])


def replay_unsupported(case: dict) -> None:
    """A combination of levels that cannot be read must not be read as something else."""
    w = World(case)
    fhs = [w.disk(d) for d in case["order"]]

    def attempt() -> None:
        for vd in [v for c in DDF(fhs, w.ss).configurations for v in c.virtual_disks]:
            vd.open().read(1)

    st, _ = outcome(attempt)
    expect(st == "err", "an unsupported combination of levels is an error", case["layouts"][0][1])


def replay_describe(case: dict) -> None:
    """One disk with tables of the given shapes and arbitrary values in every field."""
    rng = random.Random(case["phys"])
    ss = rng.choice([512, 512, 4096])
    pdt, vdt, vct = case["tables"]
    ref = rng.choice([1, 0x80000000, 0xFFFFFFFE, rng.getrandbits(31)])
    me = rng.choice(pdt["found"])
    text = ["vd", " lead", "x" * 16, "", "a b"]

    def edge(bits: int) -> int:
        return rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.getrandbits(bits)])

    pds = {
        i: {"guid": rng.randbytes(24), "ref": ref if i == me else ref ^ (i << 8), "type": edge(16), "state": edge(16), "size": edge(40) if i == me else edge(64),
            "path": rng.randbytes(18), "bs": rng.choice([0xFFFF, 512, 4096, 520])}
        for i in pdt["found"]
    }  # fmt: skip
    vds = {}
    for i in vdt["found"]:
        type_ = edge(32)
        vds[i] = {"guid": rng.randbytes(24), "number": edge(16), "type": type_, "state": edge(8), "init": edge(8), "name": rng.choice(text + (["naïve-δ", "日本"] if type_ & 4 else []))}
    # records of virtual disks that have an entry, each with one primary element: this disk
    mppe = rng.choice([1, 2, 17])
    rec_len = -(-(512 + 12 * mppe) // ss) + rng.choice([0, 1])
    vcs = {}
    for i in vct["found"]:
        level = rng.choice([(0, 0), (31, 0)])
        vcs[i] = {
            "guid": rng.choice(list(vds.values()))["guid"] if vds else rng.randbytes(24), "time": edge(32), "seq": edge(32), "pec": 1, "strip": rng.randint(0, 9), "prl": level[0],
            "rlq": level[1], "srl": 0, "nsec": 1, "sec": edge(8), "blocks": edge(40), "size": edge(40), "bs": rng.choice([0xFFFF, 512]), "rotate": edge(8),
            "refs": [ref] + [0xFFFFFFFF] * rng.randint(0, mppe - 1), "starts": [edge(40)],
        }  # fmt: skip
        vcs[i]["starts"] += [ddfimg.ALL] * (len(vcs[i]["refs"]) - 1)
    sizes = {"controller": -(-512 // ss), "pdr": -(-(64 + 64 * (len(pdt["used"]) + 5)) // ss), "vdr": -(-(64 + 64 * (len(vdt["used"]) + 5)) // ss), "conf": rec_len * len(vct["used"]), "pdd": 1, "bbm": 1, "diag": 1, "logs": 1}
    names = list(sizes)
    rng.shuffle(names)
    pos, place = 1, {}
    for name in names:
        pos += rng.randint(0, 2)
        place[name] = (pos, sizes[name])
        pos += sizes[name]
    base = rng.randint(1, 50)
    second = rng.choice([None, base + pos + rng.randint(0, 3)])
    total = base + pos + 6
    blob = Blob(total * ss, case["phys"])
    ctl = (rng.randbytes(24), rng.randbytes(8))
    hf = dict(place, guid=rng.randbytes(24), seq=edge(32), primary=base, secondary=ddfimg.ALL if second is None else second, workspace=edge(64), rec_len=rec_len, mppe=mppe)
    blob.put(base * ss, ddfimg.header(hf, 1))
    second_seq = edge(32)
    if second is not None:
        blob.put(second * ss, ddfimg.header(dict(hf, seq=second_seq), 2))
    anchor_seq = rng.choice([hf["seq"], 0xFFFFFFFF])
    blob.put((total - 1) * ss, ddfimg.header(dict(hf, seq=anchor_seq), 0))

    def put(name: str, data: bytes, off: int = 0) -> None:
        blob.put((base + place[name][0]) * ss + off, data)

    def table(sig: int, shape: dict, encode) -> bytes:
        rows = [encode(i) if used else b"\xff" * 24 + rng.randbytes(40) for i, used in enumerate(shape["used"], 1)]
        return ddfimg.table(sig, shape["populated"], len(rows) + shape["spare"], rows)

    put("controller", ddfimg.controller(ctl[0], type_=ctl[1]))
    put("pdr", table(0x22222222, pdt, lambda i: ddfimg.pde(*[pds[i][k] for k in ("guid", "ref", "type", "state", "size", "bs", "path")])))
    put("vdr", table(0xDDDDDDDD, vdt, lambda i: ddfimg.vde(*[vds[i][k] if k != "name" else vds[i][k].encode() for k in ("guid", "number", "type", "state", "init", "name")])))
    for i, used in enumerate(vct["used"], 1):
        sig = rng.choice([0xFFFFFFFF, 0x55555555, 0x88888888, 0, 0xEEEEEEEF, 0xDDDDDDDD])
        put("conf", ddfimg.vdcr(vcs[i], mppe, rec_len * ss) if used else sig.to_bytes(4, "big") + rng.randbytes(rec_len * ss - 4), (i - 1) * rec_len * ss)
    put("pdd", ddfimg.pdd(pds[me]["guid"], ref))
    ctx = f"tables={[t['used'] for t in case['tables']]} sector={ss}"

    pd = DDFPhysicalDisk(blob, ss) if ss != 512 or rng.random() < 0.5 else DDFPhysicalDisk(blob)
    w = pds[me]
    bs = ss if w["bs"] == 0xFFFF else w["bs"]
    expect_eq((bytes(pd.guid), pd.reference, pd.type, pd.state, bytes(pd.path_information), pd.block_size, pd.size), (w["guid"], ref, w["type"], w["state"], w["path"], bs, w["size"] * bs), "description of the disk", ctx)
    expect_eq((bytes(pd.controller_data.guid), bytes(pd.controller_data.type)), ctl, "controller", ctx)
    expect_eq((bytes(pd.anchor.DDF_Header_GUID), pd.anchor.Sequence_Number, pd.primary_header.Sequence_Number), (hf["guid"], anchor_seq, hf["seq"]), "header", ctx)
    if second is None:
        expect(pd.secondary_header is None, "no secondary header", ctx)
    else:
        expect_eq(pd.secondary_header.Sequence_Number, second_seq, "secondary header", ctx)
    got = [(bytes(r.guid), r.reference, r.type, r.state, r.size, bytes(r.path_information), r.block_size) for r in pd.physical_disk_records]
    expect_eq(got, [tuple(pds[i][k] for k in ("guid", "ref", "type", "state", "size", "path", "bs")) for i in pdt["found"]], "records of physical disks", ctx)
    got = [(bytes(r.guid), r.number, r.type, r.state, r.init_state, r.name) for r in pd.virtual_disk_records]
    expect_eq(got, [tuple(vds[i][k] for k in ("guid", "number", "type", "state", "init", "name")) for i in vdt["found"]], "records of virtual disks", ctx)
    recs = pd.virtual_disk_configuration_records
    expect_eq(len(recs), len(vct["found"]), "number of configuration records", ctx)
    for i, r in zip(vct["found"], recs):
        f = vcs[i]
        got = (bytes(r.guid), r.sequence_number, r.primary_element_count, r.strip_size, r.primary_raid_level, r.raid_level_qualifier, r.secondary_element_count, r.secondary_element_seq,
               r.secondary_raid_level, r.size, r.block_size, r.rotate_parity_count)  # fmt: skip
        expect_eq(got, tuple(f[k] for k in ("guid", "seq", "pec", "strip", "prl", "rlq", "nsec", "sec", "srl", "size", "bs", "rotate")), "configuration record", ctx)
        expect_eq(r.timestamp, EPOCH + timedelta(seconds=f["time"]), "time of a configuration record", ctx)
        expect_eq(r.guid_timestamp, EPOCH + timedelta(seconds=int.from_bytes(f["guid"][16:20], "big")), "time in the GUID of a virtual disk", f"guid={f['guid'].hex()} {ctx}")
        expect_eq(list(r.physical_disk_sequence), f["refs"] + [0xFFFFFFFF] * (mppe - len(f["refs"])), "members of a configuration record", ctx)
        expect_eq(list(r.starting_block), f["starts"] + [ddfimg.ALL] * (mppe - len(f["starts"])), "starting blocks of a configuration record", ctx)
    if not vcs or not vds:
        return
    # the virtual disks refer to their newest record
    newest: dict = {}
    for i in vct["found"]:
        f = vcs[i]
        if f["guid"] not in newest or f["seq"] > newest[f["guid"]]["seq"]:
            newest[f["guid"]] = f
    if len({(f["guid"], f["seq"]) for f in vcs.values()}) < len(vcs):
        return
    conf = DDF(pd, ss).configurations
    expect_eq(len(conf), 1, "one configuration per DDF header", ctx)
    got = {bytes(v.virtual_disk_record.guid): v for v in conf[0].virtual_disks}
    expect_eq(sorted(got), sorted(newest), "virtual disks", ctx)
    for guid, v in got.items():
        f = newest[guid]
        entry = [vds[i] for i in vdt["found"] if vds[i]["guid"] == guid][0]
        vbs = bs if f["bs"] == 0xFFFF else f["bs"]
        expect_eq((v.virtual_disk_record.number, v.virtual_disk_configuration_record.sequence_number), (entry["number"], f["seq"]), "records of the virtual disk", ctx)
        expect_eq((v.name, v.uuid, v.size, v.level, v.stripe_size, v.num_disks), (entry["name"], guid.hex(), f["size"] * vbs, {0: 0, 31: -1}[f["prl"]], vbs << f["strip"], 1), "description of the virtual disk", ctx)


def F02(ck: Check) -> None:
    long = [{"used": [ck.rng.random() < p for _ in range(ck.rng.randint(12, 70))], "spare": ck.rng.randrange(3)} for p in [1, 0.9, 0.5, 0.2] * ck.scale(5, 30)]
    shapes = ck.model(tlc.run("Ddf", {"Family": "table", "MaxCount": ck.scale(5, 7)}, ["ListsUsed", "Emit"], long))
    shapes.sort(key=str)
    disks = [s for s in shapes if s["found"]]
    cases = []
    for times in range(ck.scale(3, 10)):
        for tables in [(ck.rng.choice(disks), a, b) for a, b in zip(shapes, ck.rng.sample(shapes, len(shapes)))] + [(a, ck.rng.choice(shapes), ck.rng.choice(shapes)) for a in disks]:
            cases.append({"tables": tables, "phys": f"{ck.seed}-dsc-{len(cases)}"})
    ck.run("describe", cases, replay_describe)


def scenarios(rng: random.Random, count: int, codes: dict, pool: dict) -> tuple[list, dict]:
    out, layouts = [], {}
    for i in range(count):
        recs, disks, lays = [], [], []
        groups = rng.choice([1, 1, 2]) if rng.random() < 0.97 else 17
        for g in range(1, groups + 1):
            nd, vds = rng.randint(2, 7) if groups < 17 else 2, rng.choice([1, 2, 3])
            size = rng.random() if groups < 17 else 1
            if size < 0.04:  # many virtual disks
                vds = rng.randint(17, 22)
            elif size < 0.08:  # many disks
                nd = rng.randint(18, 24)
            base = len(disks)
            hs = [rng.choice([5, 6]) for _ in range(nd)]
            refs = rng.sample(range(1, 30), nd)
            slots = [[] for _ in range(nd)]
            used = [[] for _ in range(nd)]
            dropped = set()
            for vd in range(1, vds + 1):
                nsec = rng.choice([1, 1, 1, 2, 3])
                if nsec > 1:
                    if nd < 2 * nsec:
                        nsec = 1
                pec = rng.choice([2, 3]) if nsec > 1 and 3 * nsec <= nd else (2 if nsec > 1 else rng.randint(1, min(nd, 7)))
                if vd == 1 and nd > 7:
                    nsec, pec = 1, rng.randint(17, 18)
                code = rng.choice(codes[pec, nsec])
                lay = rng.choice(pool[code["lvl"], code["lay"], code["n"]])
                for age in range(rng.choice([1, 1, 2, 3]) if vds < 17 else 1):
                    members = rng.sample(range(nd), pec * nsec)
                    if age:
                        code = rng.choice(codes[pec, nsec])
                        lay = rng.choice(pool[code["lvl"], code["lay"], code["n"]])
                    can_drop = age == 0 and lay["lvl"] == 1 and vd == 1 and nsec == 1 and rng.random() < 0.4
                    # without secondary elements the sequence field has no meaning
                    lone = vd % 3 * 5
                    for k in range(nsec):
                        sec = lone if nsec == 1 else k
                        part = members[k * pec : (k + 1) * pec]
                        rr, ss = [], []
                        for m in part:
                            while rng.random() < 0.15:
                                rr.append(-1)
                                ss.append(0)
                            s = rng.choice([x for x in range(max(12, vds)) if x not in used[m]])
                            used[m].append(s)
                            rr.append(refs[m])
                            ss.append(s)
                        recs.append({"grp": g, "vd": vd, "seq": 9 - age, "sec": sec, "nsec": nsec, "pec": pec, "refs": rr, "starts": ss})
                        lays.append((lay, code))
                        r = len(recs)
                        homes = [m for m in part if rng.random() < 0.8] if age == 0 else [rng.randrange(nd)]
                        for m in homes or [part[0]]:
                            # a disk holds one record per virtual disk and element
                            if not any(x and (recs[x - 1]["grp"], recs[x - 1]["vd"], recs[x - 1]["sec"]) == (g, vd, sec) for x in slots[m]):
                                slots[m].append(r)
                    if can_drop:
                        dropped |= set(rng.sample(members, rng.randint(1, pec - 1)))
                        break
                if dropped:
                    break
            for m in range(nd):
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    slots[m].insert(rng.randrange(len(slots[m]) + 1), 0)
                disks.append({"grp": g, "ref": refs[m], "hseq": hs[m], "slots": slots[m], "drop": m in dropped})
            # disks that are not supplied, whatever that does to the virtual disks
            if not dropped and rng.random() < 0.25:
                for m in rng.sample(range(nd), rng.randint(1, nd - 1)):
                    disks[base + m]["drop"] = True
        order = [k for k in range(1, len(disks) + 1) if not disks[k - 1]["drop"]]
        for d in disks:
            del d["drop"]
        rng.shuffle(order)
        out.append({"id": f"r{i}", "recs": recs, "disks": disks, "order": order})
        layouts[f"r{i}"] = lays
    return out, layouts


def F01(ck: Check) -> None:
    rng = ck.rng
    conv = ck.model(tlc.run("Ddf", {"Family": "convert", "MaxCount": 18}, INV))
    large = [c for c in conv if c["pec"] in (17, 18) and c["nsec"] == 1]
    conv = [c for c in conv if c["pec"] <= 7]
    # layouts of the virtual disks
    pool: dict = {}
    far: dict = {}
    wanted = sorted({(c["lvl"], c["lay"], c["n"]) for c in conv + large if c["lvl"] != -9})
    scen: dict[str, list] = {"raid0": [], "parity": [], "raid10": [], "linear": []}
    for lvl, lay, n in wanted:
        if (lvl == 6 and n < 4) or (lvl in (4, 5, 10) and n < 2):
            continue
        fam = {-1: "linear", 0: "raid0", 1: "linear", 10: "raid10"}.get(lvl, "parity")
        for _ in range(2):
            k = rng.randint(1, 4) * (2 if lay == 513 else 1) if lvl == 10 else rng.randint(1, 2 * n if n < 17 else 4)
            scen[fam].append(raid.cfg(f"d{lvl}", lvl, lay, n, [k] * n))
        if n < 8:
            scen[fam].append(raid.far_layout(rng, f"d{lvl}", lvl, lay, n, True))
    for fam, items in scen.items():
        for r in ck.model(tlc.run("Raid", {"Family": fam, "CU": 2, "MaxN": 1, "MaxSz": 1}, raid.INVARIANTS, items, workers=6)):
            if r["id"].startswith("d"):
                (far if r["probes"] else pool).setdefault((r["lvl"], r["lay"], r["n"]), []).append({k: r[k] for k in KEEP})
    for v in pool.values():
        v.sort(key=str)
    codes: dict = {}
    for c in sorted(conv + large, key=str):
        if (c["lvl"], c["lay"], c["n"]) in pool:
            codes.setdefault((c["pec"], c["nsec"]), []).append(c)
    items, lays = scenarios(rng, ck.scale(700, 4000), codes, pool)
    recs = ck.model(tlc.run("Ddf", {"Family": "assemble", "MaxCount": 2}, INV, items, workers=6))
    recs.sort(key=str)
    small = [r for r in recs if r["id"] == "e" and r["vds"]]
    rng.shuffle(small)
    cases = []
    for r in [x for x in recs if x["id"] != "e"] + small[: ck.scale(1200, 8000)]:
        if not r["vds"]:
            continue
        lay = lays.get(r["id"])
        if lay is None:
            lay = []
            for x in r["recs"]:
                code = rng.choice(codes[x["pec"], x["nsec"]])
                lay.append((rng.choice(pool[code["lvl"], code["lay"], code["n"]]), code))
        cases.append(dict(r, layouts=lay, phys=f"{ck.seed}-ddf-{len(cases)}"))
    # every code is exercised at least once on its own
    for c in conv:
        if (c["lvl"], c["lay"], c["n"]) not in pool:
            continue
        for lay in pool[c["lvl"], c["lay"], c["n"]][:1] + far.get((c["lvl"], c["lay"], c["n"]), []):
            k = c["pec"] * c["nsec"]
            rr = [{"grp": 1, "vd": 1, "seq": 1, "sec": s, "nsec": c["nsec"], "pec": c["pec"], "refs": list(range(s * c["pec"] + 1, (s + 1) * c["pec"] + 1)), "starts": [rng.randrange(3) for _ in range(c["pec"])]} for s in range(c["nsec"])]
            disks = [{"grp": 1, "ref": d + 1, "hseq": 1, "slots": [d // c["pec"] + 1]} for d in range(k)]
            mp = [{"idx": s * c["pec"] + i, "disk": s * c["pec"] + i + 1, "start": rr[s]["starts"][i]} for s in range(c["nsec"]) for i in range(c["pec"])]
            cases.append({"id": "c", "recs": rr, "disks": disks, "order": list(range(1, k + 1)), "layouts": [(lay, c)] * c["nsec"], "phys": f"{ck.seed}-ddf-{len(cases)}",
                          "vds": [{"grp": 1, "vd": 1, "geo": [1], "recs": list(range(1, c["nsec"] + 1)), "map": mp, "names": list(range(1, k + 1))}]})  # fmt: skip
    ck.run("assemble", cases, replay_assemble)
    # spanned secondary levels are left out
    lay = next(iter(pool.values()))[0]
    bad = [c for c in conv if c["lvl"] == -9 and not (c["nsec"] > 1 and c["prl"] == 1 and c["srl"] == 3)]
    rng.shuffle(bad)
    cases = []
    for c in [c for c in bad if c["prl"] == 1] + [c for c in bad if c["prl"] != 1][: ck.scale(400, 4000)]:
        rr = [{"grp": 1, "vd": 1, "seq": 1, "sec": s, "nsec": c["nsec"], "pec": c["pec"], "refs": list(range(s * c["pec"] + 1, (s + 1) * c["pec"] + 1)), "starts": [0] * c["pec"]} for s in range(c["nsec"])]
        disks = [{"grp": 1, "ref": d + 1, "hseq": 1, "slots": [d // c["pec"] + 1]} for d in range(c["pec"] * c["nsec"])]
        cases.append({"recs": rr, "disks": disks, "order": list(range(1, len(disks) + 1)), "layouts": [(lay, c)] * c["nsec"], "vds": [], "phys": f"{ck.seed}-uns-{len(cases)}"})
    ck.run("unsupported", cases, replay_unsupported)
    ck.run("reject", [{"phys": f"{ck.seed}-rej-{i}"} for i in range(ck.scale(20, 100))], replay_reject)


REPLAY = {"describe": replay_describe, "unsupported": replay_unsupported, "assemble": replay_assemble, "reject": replay_reject}
