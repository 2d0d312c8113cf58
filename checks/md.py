"""M01, M02: MD superblocks and assembly emitted by Md.tla (and layouts by Raid.tla) on the real MD reader."""

from __future__ import annotations

import datetime
import random
import uuid

import raid
from vlib import mdimg, tlc
from vlib.blob import Blob, noise
from vlib.harness import Check, deviation, expect, expect_bytes, expect_eq, outcome

from dissect.volume.md import MD
from dissect.volume.md.md import MDPhysicalDisk

UTC = datetime.timezone.utc
INV = ["LocateExact", "OrderIndependent", "NoRoleNoData", "Emit"]


def when(sec: int, us: int = 0) -> datetime.datetime:
    return datetime.datetime(1970, 1, 1, tzinfo=UTC) + datetime.timedelta(seconds=sec, microseconds=us)


# -- M01 -----------------------------------------------------------------------------------------------------------------
def random_fields(rng: random.Random, ver: str, at: int, size: int) -> tuple[dict, dict]:
    """Superblock fields, and what the reader has to report."""
    level = rng.choice([-1, 0, 1, 4, 5, 6, 10])
    f = {
        "set_uuid": rng.randbytes(16), "level": level, "layout": rng.getrandbits(32), "raid_disks": rng.randint(1, 40),
        "events": rng.choice([rng.getrandbits(64), rng.getrandbits(20), 1 << 32, (1 << 32) - 1]),
    }  # fmt: skip
    name = None
    if ver == "0.90":
        f["ctime"], f["utime"] = (rng.getrandbits(rng.choice([31, 32])) for _ in range(2))
        f["size"] = rng.getrandbits(32)
        f["chunk"] = rng.choice([65536, 4096, 512 * rng.randint(1, 9999)])
        number = rng.randrange(27)
        disks = [(i, rng.randrange(27), rng.choice([0, 1, 2, 6, 8])) for i in range(27)]
        state = rng.choice([6, 6, 6, 6 | 1 << 9, 4, 0, 1, 2, 8, 7])
        role = rng.randrange(f["raid_disks"])
        disks[number] = (number, role, state)
        # the table decides; the own copy only says which entry is this device
        f["disks"], f["this_disk"] = disks, disks[number] if rng.random() < 0.5 else (number, rng.randrange(27), rng.choice([6, 0, 1]))
        if not (state & mdimg.SYNC_BIT) or state & mdimg.FAULTY_BIT:
            role = None
        want = {"data_offset": 0, "data_size": at, "chunk_size": f["chunk"], "dev_number": number, "device_uuid": None,
                "creation_time": when(f["ctime"]), "update_time": when(f["utime"])}  # fmt: skip
    else:
        ct, ut = ((rng.getrandbits(rng.choice([31, 32, 37])), rng.choice([0, 999999, rng.randrange(1000000)])) for _ in range(2))
        f["ctime"], f["utime"] = ct[0] | ct[1] << 40, ut[0] | ut[1] << 40
        f["size"] = rng.getrandbits(40)
        f["chunk"] = rng.choice([8, 128, 1024, rng.randint(1, 1 << 20)])
        raw = rng.choice([b"", b"host:name", b"n" * 32, b"a\x00junk", "näme".encode(), b"sp ace ", b"\xffn\xe4me", "日本".encode()[:-1]])
        name = raw.split(b"\x00")[0].decode(errors="surrogateescape")
        f["name"] = raw
        f["dev_uuid"] = rng.randbytes(16)
        f["data_offset"], f["data_size"] = rng.getrandbits(rng.choice([4, 20, 40])), rng.getrandbits(rng.choice([4, 20, 40]))
        f["super_offset"] = at
        roles = [rng.choice([0, 1, 2, mdimg.SPARE, mdimg.FAULTY]) for _ in range(rng.choice([2, 8, 128, 256, 384]))]
        number = rng.randrange(len(roles))
        role = rng.choice([0, 1, rng.randrange(0xFF01), 0xFF00, mdimg.SPARE, mdimg.FAULTY, mdimg.JOURNAL])
        roles[number] = role
        if rng.random() < 0.05:
            number, role = len(roles), mdimg.SPARE  # not (yet) in the table
        f["roles"], f["dev_number"] = roles, number
        role = role if role <= 0xFF00 else None
        f["feature_map"], f["recovery_offset"] = rng.choice(mdimg.FEATURES), rng.getrandbits(rng.choice([4, 40]))
        if rng.random() < 0.15:
            f["feature_map"] |= mdimg.RECOVERING
            role = None
        want = {"data_offset": f["data_offset"], "data_size": f["data_size"], "chunk_size": f["chunk"] * 512, "dev_number": number,
                "device_uuid": uuid.UUID(bytes_le=f["dev_uuid"]), "creation_time": when(*ct), "update_time": when(*ut)}  # fmt: skip
    want |= {"set_uuid": uuid.UUID(bytes_le=f["set_uuid"]), "set_name": name, "level": level, "layout": f["layout"], "raid_disks": f["raid_disks"],
             "events": f["events"], "raid_disk": role, "chunk_sectors": want["chunk_size"] // 512, "sectors": want["data_size"],
             "offset": want["data_offset"] * 512}  # fmt: skip
    if level != -1:  # a linear set uses whole chunks of its members
        want["size"] = want["data_size"] * 512
    return f, want


def replay_locate(case: dict) -> None:
    rng = random.Random(case["phys"])
    shift = case["shift"]  # a multiple of 64 KiB: places are relative to the end of the device or absolute
    size = case["size"] + shift
    at = case["at"] + (shift if case["ver"] in ("0.90", "1.0") else 0)
    length = size * 512 + rng.choice([0, 0, 1, 511])
    blob = Blob(length, rng.choice([0, 0, 0xFC, 0x5A]), expose_size=rng.random() < 0.3)
    ctx = f"ver={case['ver']} sectors={size} at={at}"
    if not case["found"]:
        if size:
            # the magic at places that are no superblock location
            s = rng.randrange(size)
            if s not in {mdimg.place(v, size) for v in ("0.90", "1.0", "1.1", "1.2")} and s * 512 + 256 <= length:
                blob.put(s * 512, mdimg.MAGIC.to_bytes(4, "little") + b"\x01\x00\x00\x00")
        st, md = outcome(MD, blob)
        expect(st == "err", "a device without a superblock is rejected", ctx)
        return
    f, want = random_fields(rng, case["ver"], at, size)
    data = mdimg.sb0(f) if case["ver"] == "0.90" else mdimg.sb1(f)
    room = length - at * 512
    if len(data) > room:
        f["roles"] = f["roles"][: (room - 256) // 2]
        if f["dev_number"] >= len(f["roles"]):
            want["raid_disk"] = None
        data = mdimg.sb1(f)
    blob.put(at * 512, data)
    md = MD(blob)
    expect_eq(len(md.configurations), 1, "one configuration", ctx)
    conf = md.configurations[0]
    expect_eq((len(conf.physical_disks), len(conf.virtual_disks)), (1, 1), "one member, one virtual disk", ctx)
    pd, vd = conf.physical_disks[0], conf.virtual_disks[0]
    for k, v in want.items():
        if k.endswith("_time"):  # datetimes are made from a float, which has no exact microseconds for distant years
            diff = abs(getattr(pd, k) - v)
            expect(diff <= datetime.timedelta(microseconds=100 if v.year > 2105 else 2), f"member {k}", f"got {getattr(pd, k)} expected {v} {ctx}")
            continue
        expect_eq(getattr(pd, k), v, f"member {k}", ctx)
    expect_eq((vd.name, vd.uuid, vd.level, vd.layout, vd.stripe_size, vd.num_disks),
              (want["set_name"], str(want["set_uuid"]), want["level"], want["layout"], want["chunk_size"], want["raid_disks"]), "virtual disk description", ctx)  # fmt: skip
    expect_eq(set(vd.disk_map), set() if want["raid_disk"] is None else {want["raid_disk"]}, "only members with a data role supply data", ctx)


def M01(ck: Check) -> None:
    recs = ck.model(tlc.run("Md", {"Family": "locate", "MaxSectors": ck.scale(700, 1500), "MaxMembers": 0}, INV))
    recs.sort(key=str)
    cases = []
    for i, r in enumerate(recs):
        for t in range(ck.scale(2, 6)):
            shift = 0 if t == 0 else 128 * ck.rng.getrandbits(ck.rng.choice([8, 24, 34]))
            cases.append(dict(r, shift=shift, phys=f"{ck.seed}-loc-{i}-{t}"))
    ck.run("locate", cases, replay_locate)


# -- M02 -----------------------------------------------------------------------------------------------------------------
class Set:
    """One MD set: a layout of Raid.tla with member devices for every member of the assembly."""

    def __init__(self, case: dict, k: int):
        rng = random.Random(f"{case['phys']}-{k}")
        info = next(s for s in case["sets"] if s["set"] == k)
        lay = case["layouts"][k - 1]
        self.lay, self.info, self.k = lay, info, k
        lvl = lay["lvl"]
        far = lay.get("probes")  # only these chunks are laid out
        ver = rng.choice(["1.2", "1.1", "1.0", "0.90"] if not far else ["1.2", "1.1", "1.0"])
        self.ver = ver
        chunk = 65536 if ver == "0.90" else rng.choice([4096, 8192, 65536] if lvl in (4, 5, 6, 10) else [512, 1536, 4096, 65536])
        self.chunk = chunk
        self.size = lay["chunks"] * chunk
        self.idx = far or range(lay["chunks"])
        self.content = [noise((case["phys"], k, i), chunk) for i in self.idx]
        like = random.Random(case["phys"] + "uuid")
        base = bytearray(like.randbytes(16))
        if like.random() < 0.5:  # sets whose UUIDs differ in few bytes
            base[rng.randrange(16)] ^= k
            self.uuid = bytes(base)
        else:
            self.uuid = rng.randbytes(16)
        self.name = rng.choice([f"set{k}", "same"]) if ver != "0.90" else None
        linear_chunk = rng.choice([0, chunk]) if lvl == -1 else chunk
        self.md_chunk = linear_chunk
        self.comp = min(lay["sz"]) * chunk
        self.devs = {}
        events = dict(zip((5, 6), rng.choice([(1000, (1 << 40) + 7), (99, 100), ((1 << 32) - 1, 1 << 32), (1 << 53, (1 << 53) + 1), ((1 << 63) - 1, 1 << 63)])))
        newest = set(info["newest"])
        roles_taken = {}
        for d in info["devs"]:
            m = case["members"][d - 1]
            role = m["role"]
            sz = lay["sz"][role] if role >= 0 else max(lay["sz"])
            area = sz * chunk
            slack = 0
            if (lvl == 0 or (lvl == -1 and linear_chunk)) and ver != "0.90":
                slack = rng.choice([0, chunk - 512]) // 512 * 512
            elif lvl not in (0, -1):
                slack = rng.choice([0, 512, 70000 // 512 * 512])
            stale = d not in newest
            f = {
                "set_uuid": self.uuid, "ctime": 1000 + d, "utime": 2000 + d, "events": events[m["ev"]] if m["ev"] in (5, 6) else m["ev"] * 10,
                "level": lvl, "layout": lay["lay"], "raid_disks": lay["n"], "name": (self.name or "").encode(), "dev_uuid": rng.randbytes(16),
            }  # fmt: skip
            div = 1024 if ver == "0.90" else 512
            f["size"] = self.comp // div if lvl not in (0, -1) else rng.getrandbits(20)
            f["chunk"] = linear_chunk if ver == "0.90" else linear_chunk // 512
            if stale and rng.random() < 0.7:
                # an outdated superblock describes the set as it was
                f["name"] = b"old"
                f["layout"] = f["layout"] + 1
                f["chunk"] = 2 * f["chunk"] + (128 if ver != "0.90" else 0)
                f["size"] += 8
                f["raid_disks"] += 1
                if rng.random() < 0.5:
                    f["level"] = rng.choice([1, 5])
            number = rng.randrange(20) if ver == "0.90" or rng.random() < 0.9 else rng.randrange(384)
            if ver == "0.90":
                data_sect = (area + slack + 65535) // 65536 * 128
                if lvl in (0, -1):
                    data_sect = area // 512
                total = data_sect + 128 + rng.randrange(128)
                state = {-1: 0, -2: 1, -3: 0}.get(role, 6 if not m["rec"] else rng.choice([0, 2]))
                f["disks"] = [(i, 99, 6) for i in range(27)]
                f["disks"][number] = f["this_disk"] = (number, role if role >= 0 else rng.choice([0, 1, 26]), state)
                if rng.random() < 0.3:
                    f["this_disk"] = (number, rng.randrange(27), rng.choice([6, 0, 1]))
                sect, off = mdimg.place(ver, total), 0
                data = mdimg.sb0(f)
            else:
                off = {"1.0": rng.choice([0, 8]), "1.1": rng.choice([8, 264]), "1.2": rng.choice([16, 2048])}[ver]
                f["data_offset"], f["data_size"] = off, (area + slack) // 512
                total = off + f["data_size"] + rng.choice([16, 17, 100, 300]) + 8
                sect = mdimg.place(ver, total)
                f["super_offset"], f["dev_number"] = sect, number
                f["roles"] = [mdimg.SPARE] * (24 if number < 24 else 384)
                f["roles"][number] = role if role >= 0 else {-1: mdimg.SPARE, -2: mdimg.FAULTY, -3: mdimg.JOURNAL}[role]
                f["feature_map"] = rng.choice(mdimg.FEATURES)
                if m["rec"]:
                    f["feature_map"] |= mdimg.RECOVERING
                    f["recovery_offset"] = rng.choice([0, area // 512 // 2])
                data = mdimg.sb1(f)
            blob = Blob(total * 512, f"{case['phys']}-{d}", expose_size=rng.random() < 0.3)
            if m["rec"] and ver != "0.90" and f["recovery_offset"] and not stale:
                for i in range(len(self.idx)):
                    for p in lay["places"][i]:
                        if p["m"] == role and (p["r"] + 1) * chunk <= f["recovery_offset"] * 512:
                            blob.put(off * 512 + p["r"] * chunk, self.content[i])
            if role >= 0 and d in info["chosen"]:
                roles_taken[role] = d
                if lvl != 1 or d in info["sources"]:
                    for i in range(len(self.idx)):
                        for p in lay["places"][i]:
                            if p["m"] == role:
                                blob.put(off * 512 + p["r"] * chunk, self.content[i])
            blob.put(sect * 512, data)
            self.devs[d] = blob
        self.f_size = self.comp // (1024 if ver == "0.90" else 512)


def replay_assemble(case: dict) -> None:
    sets = {s["set"]: Set(case, s["set"]) for s in case["sets"]}
    devs = {}
    for s in sets.values():
        devs |= s.devs
    rng = random.Random(case["phys"] + "w")
    fhs = [devs[d] for d in case["order"]]
    fhs = [MDPhysicalDisk(fh) if rng.random() < 0.1 else fh for fh in fhs]
    md = MD(fhs[0] if len(fhs) == 1 and rng.random() < 0.5 else fhs)
    ctx = f"members={[(m['set'], m['role'], m['ev']) for m in case['members']]} order={case['order']}"
    by_uuid = {}
    for conf in md.configurations:
        expect_eq(len(conf.virtual_disks), 1, "one virtual disk per set", ctx)
        vd = conf.virtual_disks[0]
        expect(vd.uuid not in by_uuid, "one configuration per set", ctx)
        by_uuid[vd.uuid] = conf
    expect_eq(len(by_uuid), len(sets), "one configuration per set", ctx)
    for s in sets.values():
        lay = s.lay
        conf = by_uuid.get(str(uuid.UUID(bytes_le=s.uuid)))
        c2 = f"ver={s.ver} lvl={lay['lvl']} lay={lay['lay']} n={lay['n']} sz={lay['sz']} chunk={s.chunk} {ctx}"
        expect(conf is not None, "configuration of the set", c2)
        expect_eq({id(p.fh) for p in conf.physical_disks}, {id(b) for b in s.devs.values()}, "members of the set", c2)
        vd = conf.virtual_disks[0]
        expect_eq((vd.name, vd.level, vd.layout, vd.stripe_size, vd.num_disks), (s.name, lay["lvl"], lay["lay"], s.md_chunk, lay["n"]), "newest superblock describes the set", c2)
        if 0 in s.info["chosen"]:  # members are missing
            expect_eq(sorted(vd.disk_map), [r for r, d in enumerate(s.info["chosen"]) if d], "members of an incomplete set", c2)
            vd.size = s.size
            if lay["lvl"] != 1 or len(vd.disk_map) == 0:
                raid.right_or_error(vd, b"".join(s.content), s.chunk, c2)
                continue
        if vd.size != s.size:
            expect(lay["lvl"] in (1, 4, 5, 6, 10), "size", f"got {vd.size} expected {s.size} {c2}")
            expect_eq(vd.size, s.f_size * 512, "size", c2)
            if s.ver != "0.90":
                expect(lay["lvl"] != 1, "size", f"got {vd.size} expected {s.size} {c2}")
                deviation("md-size-component", f"level {lay['lvl']} with {lay['n']} members of {s.comp} bytes has size {vd.size} instead of {s.size}")
            else:
                deviation("md-090-size", f"0.90 level {lay['lvl']} with {lay['n']} members of {s.comp} bytes has size {vd.size} instead of {s.size}")
        if lay.get("probes"):
            check_far(vd, s, rng, c2)
            continue
        content = b"".join(s.content)
        check_content(vd, content, rng, c2)
        if vd.size < s.size:
            # the data behind the reported size
            st, _ = outcome(setattr, vd, "size", s.size)
            if st == "ok":
                check_content(vd, content, rng, c2)


def incomplete(case: dict, gone: set) -> tuple:
    """A set of the given layout some of whose members are not supplied."""
    roles = [m for m in range(case["n"]) if m not in gone]
    rng = random.Random(case["phys"])
    devs = list(range(1, len(roles) + 1))
    info = {"set": 1, "newest": devs, "devs": devs, "sources": devs, "chosen": [roles.index(r) + 1 if r in roles else 0 for r in range(case["n"])]}
    s = Set({"phys": case["phys"], "sets": [info], "members": [{"set": 1, "role": r, "ev": 6, "rec": False} for r in roles], "layouts": [case]}, 1)
    rng.shuffle(devs)

    def open_():
        (conf,) = MD([s.devs[d] for d in devs]).configurations
        vd = conf.virtual_disks[0]
        vd.size = s.size  # see the findings about the size
        return vd.open()

    return open_, s.content, s.chunk


def check_content(vd, content: bytes, rng: random.Random, ctx: str) -> None:
    n = min(vd.size, len(content))
    fh = vd.open()
    expect_bytes(fh.read(n), content[:n], "contents of the array", ctx)
    for _ in range(4):
        pos = rng.randrange(n)
        k = rng.randint(1, n - pos)
        fh.seek(pos)
        expect_bytes(fh.read(k), content[pos : pos + k], "contents of the array (window)", f"pos={pos} n={k} {ctx}")


def check_far(vd, s: Set, rng: random.Random, ctx: str) -> None:
    """The chunks that are laid out, also behind the reported size."""
    vd.size = s.size
    fh = vd.open()
    if s.lay["lvl"] != 1:
        expect_eq(fh.seek(0, 2), s.size, "size", ctx)
    for i in rng.sample(range(len(s.idx)), len(s.idx)):
        a = rng.choice([0, rng.randrange(s.chunk)])
        k = rng.choice([s.chunk - a, rng.randint(1, s.chunk - a)])
        fh.seek(s.idx[i] * s.chunk + a)
        expect_bytes(fh.read(k), s.content[i][a : a + k], "contents of the array (far)", f"chunk={s.idx[i]} pos={a} n={k} {ctx}")


def assemble_scenarios(rng: random.Random, count: int, many: list) -> list:
    out = []
    for i in range(count):
        need, members = [], []
        sets = rng.choice([1, 1, 2, 3]) if rng.random() < 0.98 else 18
        for k in range(1, sets + 1):
            n = rng.randint(1, 2) if sets > 3 else rng.randint(1, 7) if rng.random() < 0.85 else rng.choice(many)
            need.append(n)
            stale = rng.random() < 0.3
            absent = rng.sample(range(n), rng.randint(1, min(3, n - 1))) if n > 1 and rng.random() < 0.25 else []
            rebuilt = rng.sample(range(n), rng.randint(1, min(2, n - 1))) if n > 1 and rng.random() < 0.15 else []
            for r in range(n):
                if r not in absent:
                    members.append({"set": k, "role": r, "ev": 6 if not stale or rng.random() < 0.7 else 5, "rec": r in rebuilt})
                    if members[-1]["ev"] == 6 and rng.random() < 0.1:
                        members.append({"set": k, "role": r, "ev": 5, "rec": False})
                if rng.random() < 0.05:  # a replacement
                    members.append({"set": k, "role": r, "ev": 6, "rec": True})
            for _ in range(rng.choice([0, 0, 1, 2])):
                members.append({"set": k, "role": rng.choice([-1, -2, -3]), "ev": rng.choice([5, 6]), "rec": False})
        order = list(range(1, len(members) + 1))
        rng.shuffle(order)
        out.append({"id": f"r{i}", "need": need, "members": members, "order": order})
    return out


def M02(ck: Check) -> None:
    rng = ck.rng
    pool: dict[int, list] = {}
    far: dict[int, list] = {}
    for fam in ("raid0", "parity", "raid10", "linear"):
        scen = raid.scenarios(ck, fam, ck.scale(120, 400), 0)
        if fam in ("raid0", "linear"):
            for i, n in enumerate(ck.rng.choices(range(17, 23), k=6)):
                scen.append(raid.cfg(f"w{i}", 0 if fam == "raid0" else -1, 0, n, [ck.rng.randint(1, 3) for _ in range(n)]))
        for j in range(40):
            lvl, lay, n = raid.random_layout(rng, fam)
            if n < 8:
                scen.append(raid.far_layout(rng, f"f{j}", lvl, lay, n))
        recs = ck.model(tlc.run("Raid", {"Family": fam, "CU": 2, "MaxN": 3, "MaxSz": 2}, raid.INVARIANTS, scen, workers=6))
        for r in sorted((r for r in recs if r["probes"]), key=str):
            far.setdefault(r["n"], []).append({k: r[k] for k in ("lvl", "lay", "n", "sz", "chunks", "places", "probes")})
        recs = [r for r in recs if r["chunks"] <= 60 and not r["probes"]]
        recs.sort(key=lambda r: (r["id"], r["lvl"], r["lay"], r["n"], r["sz"]))
        for r in recs:
            pool.setdefault(r["n"], []).append({k: r[k] for k in ("lvl", "lay", "n", "sz", "chunks", "places")})
    recs = ck.model(tlc.run("Md", {"Family": "assemble", "MaxSectors": 0, "MaxMembers": 3}, INV, assemble_scenarios(rng, ck.scale(400, 2000), sorted(n for n in pool if n > 10)), workers=6))
    recs.sort(key=str)
    cases = []
    for i, r in enumerate(recs):
        for t in range(1 if r["id"] == "e" else 2):
            whole = [all(x["chosen"]) for x in sorted(r["sets"], key=lambda x: x["set"])]
            some = rng.random() < 0.08 and len(whole) == len(r["need"])
            layouts = [rng.choice(far[n] if some and n in far and whole[j] else pool[n]) for j, n in enumerate(r["need"])]
            cases.append(dict(r, phys=f"{ck.seed}-asm-{i}-{t}", layouts=layouts))
    ck.run("assemble", cases, replay_assemble)


REPLAY = {"locate": replay_locate, "assemble": replay_assemble}
