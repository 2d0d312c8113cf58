"""S01: volumes with the snapshot histories of Vss.tla on the real reader."""

from __future__ import annotations

import random
import struct
import uuid

from vlib import tlc, vssimg
from vlib.blob import noise
from vlib.harness import Check, expect_bytes, expect_eq
from vlib.vssimg import BLOCK

from dissect.volume.vss import VSS

INV = ["Isolation", "Emit"]


class Image:
    """A volume with the stores of an emitted history."""

    def __init__(self, rng: random.Random, rec: dict):
        self.rng = rng
        self.rec = rec
        n = rec["n"]
        big = rng.random() < 0.03
        total = rng.choice([140000, 300001, 700000]) if big else rng.randint(90 + n + 20 * len(rec["snaps"]), max(400, 150 + 20 * len(rec["snaps"])))
        if len(rec["snaps"]) < 3 and rng.random() < 0.002:  # more than 256 GiB
            total = 17_300_000
        near = rng.random() < 0.3
        spots = sorted(range(1, n + 1) if near else rng.sample(range(1, total - 1), n))
        self.size = total * BLOCK
        if rng.random() < 0.4:
            self.size -= 512 * rng.randint(1, 31)  # the volume ends within its last block
            if rng.random() < 0.5 and not any(o["op"] == "move" for o in rec["ops"]):
                spots[-1] = total - 1
        if rng.random() < 0.5:
            rng.shuffle(spots)
        self.spots = spots
        self.where = {p: i for i, p in enumerate(spots)}
        self.vol = vol = vssimg.Volume(rng, total, self.size, set(spots))
        # which sectors make up the parts of a block
        mask = rng.choice([0x0000FFFF, 0x55555555, 1, 0x80000000, rng.getrandbits(32) or 1])
        self.parts = {1: mask, 2: mask ^ 0xFFFFFFFF}
        self.seed = rng.getrandbits(40)
        for b in range(n):
            data = self.contents(rec["live"][b])
            vol.blob.put(spots[b] * BLOCK, data[: max(0, min(BLOCK, vol.blob.length - spots[b] * BLOCK))])
        first = rng.randrange(10**17, 2 * 10**17)
        span = rng.choice([10**17, 10**7, 20])  # units of 100 ns
        self.times = sorted(rng.sample(range(first, first + span), len(rec["snaps"])))
        # the volume may have grown in between
        least = max(max(spots) + 1, total - rng.choice([1, 1, 1, 50])) * BLOCK
        self.sizes = [self.size if self.size <= least else rng.randrange(least, self.size + 1, 512) for _ in rec["snaps"]]
        self.ids = [rng.randbytes(16) for _ in rec["snaps"]]
        self.sids = [rng.randbytes(16) for _ in rec["snaps"]]
        if rng.random() < 0.4:  # alike in all but one byte
            at = rng.randrange(16)
            self.sids = [self.sids[0][:at] + bytes([i]) + self.sids[0][at + 1 :] for i in range(len(self.sids))]
        self.sets = [rng.randbytes(16) for _ in rec["snaps"]]
        entries = []
        for i, snap in enumerate(rec["snaps"]):
            entries.append(self.store(i, snap))
        if rng.random() < 0.5:
            rng.shuffle(entries)
        raw = []
        for e in entries:
            raw += e
            if rng.random() < 0.3:  # deleted
                raw.insert(rng.randrange(len(raw) + 1), struct.pack("<Q", 1) + rng.randbytes(120))
        if rng.random() < 0.1:  # a long catalog
            for _ in range(130):
                raw.insert(rng.randrange(len(raw) + 1), struct.pack("<Q", 1) + rng.randbytes(120))
        self.volume_ids = (rng.randbytes(16), rng.randbytes(16))
        vol.header(vol.chain(2, b"".join(raw)), *self.volume_ids)

    def sectors(self, part: int) -> list[int]:
        return [i for i in range(32) if self.parts[part] >> i & 1]

    def contents(self, ids: list[int]) -> bytes:
        """Contents of a block: numbers of both parts; 0 is zeros."""
        buf = bytearray(BLOCK)
        for part in (1, 2):
            if ids[part - 1]:
                data = noise((self.seed, ids[part - 1], part), BLOCK)
                for i in self.sectors(part):
                    buf[i * 512 : (i + 1) * 512] = data[i * 512 : (i + 1) * 512]
        return bytes(buf)

    def store(self, i: int, snap: dict) -> list[bytes]:
        rng = self.rng
        vol = self.vol
        out = []
        over = {}
        targets = {self.spots[d["t"]] for d in snap["list"] if d["k"] == "fwd" and d["t"] != d["b"]}
        for d in snap["list"]:
            b = d["b"]
            at = self.spots[b] * BLOCK
            while rng.random() < 0.2:  # unused
                out.append(vol.descriptor(rng.choice(self.spots) * BLOCK, rng.choice(self.spots) * BLOCK, rng.getrandbits(30), 4 | rng.choice([0, 1, 2]), rng.getrandbits(32)))
            if d["k"] == "copy":
                spot = vol.block() * BLOCK
                vol.blob.put(spot, self.contents(d["data"]))
                # position within the store, which may look like one of the volume
                rel = rng.choice([at // BLOCK, *self.spots, rng.randrange(200)])
                while rel in targets:
                    rel = rng.randrange(200)
                rel *= BLOCK
                out.append(vol.descriptor(at, rel, spot, 0, rng.choice([0, rng.getrandbits(32)])))
            elif d["k"] == "fwd":
                out.append(vol.descriptor(at, self.spots[d["t"]] * BLOCK, rng.getrandbits(30), 1, 0))
            else:
                if b not in over:
                    over[b] = vol.block() * BLOCK
                spot = over[b]
                data = self.contents(d["data"])
                secs = self.sectors(d["p"])
                for s in secs:
                    vol.blob.put(spot + s * 512, data[s * 512 : (s + 1) * 512])
                k = rng.randint(0, len(secs)) if rng.random() < 0.3 else len(secs)
                for piece in (secs[:k], secs[k:]):
                    if piece:
                        out.append(vol.descriptor(at, rng.getrandbits(30), spot, 2, sum(1 << s for s in piece)))
        if rng.random() < 0.06:  # a list of several blocks
            pads = rng.choice([505, 1010, 1600])
            cuts = sorted(rng.randint(0, pads) for _ in out)
            unused = vol.descriptor(rng.getrandbits(30), 0, rng.getrandbits(30), 4, 0)
            padded = []
            for cut, last, d in zip(cuts, [0, *cuts], out):
                padded += [unused] * (cut - last) + [d]
            out = padded + [unused] * (pads - (cuts[-1] if cuts else 0))
        blocks = vol.chain(3, b"".join(out))
        ranges = vol.chain(5, struct.pack("<QQQ", vol.block() * BLOCK, 0, BLOCK))
        free = {self.spots[b] for b in snap["free"]}
        bitmap = vol.bitmap(free)
        prev = vol.bitmap({self.spots[b] for b in snap["prev"]}) if snap["hasprev"] else 0
        head = vol.store_header(self.ids[i], self.sets[i], rng.choice(["", "host", "PC-ü"]), "svc")
        sid = self.sids[i]
        two = struct.pack("<QQ16sQQQ", 2, self.sizes[i], sid, rng.getrandbits(30), rng.getrandbits(30), self.times[i]) + rng.randbytes(72)
        three = struct.pack("<QQ16sQQQQQQQ", 3, blocks, sid, head, ranges, bitmap, rng.getrandbits(30), rng.getrandbits(30), prev, rng.getrandbits(30)) + rng.randbytes(40)
        return [two, three] if rng.random() < 0.8 else [three, two]

    def expected(self, i: int, block: int) -> bytes:
        """A whole block of a snapshot."""
        if block in self.where:
            return self.contents(self.rec["snaps"][i]["read"][self.where[block]])
        return self.vol.blob.peek_at(block * BLOCK, BLOCK)

    def window(self, i: int, pos: int, n: int) -> bytes:
        n = max(0, min(n, self.sizes[i] - pos))
        out = []
        while n > 0:
            b, o = divmod(pos, BLOCK)
            k = min(BLOCK - o, n)
            out.append(self.expected(i, b)[o : o + k])
            pos += k
            n -= k
        return b"".join(out)


def replay_history(case: dict) -> None:
    rng = random.Random(case["phys"])
    img = Image(rng, case)
    img.vol.blob.seek(rng.choice([0, 99]))
    vss = VSS(img.vol.blob)
    ctx = f"history={[{k: v for k, v in o.items() if v or k == 'b'} for o in case['ops']]}"
    expect_eq((vss.volume_identifier, vss.store_volume_identifier), tuple(uuid.UUID(bytes_le=x) for x in img.volume_ids), "volume identifiers", ctx)
    stores = vss.catalog.stores
    expect_eq(len(stores), len(case["snaps"]), "number of snapshots", ctx)
    expect_eq([s.creation_time for s in stores], img.times, "creation times", ctx)
    expect_eq([s.copy_identifier for s in stores], [uuid.UUID(bytes_le=x) for x in img.ids], "snapshot identifiers", ctx)
    expect_eq([s.copy_set_identifier for s in stores], [uuid.UUID(bytes_le=x) for x in img.sets], "snapshot set identifiers", ctx)
    expect_eq([s.size for s in stores], img.sizes, "snapshot sizes", ctx)
    expect_eq([s.index for s in stores], list(range(len(stores))), "positions of the snapshots", ctx)
    for i, s in enumerate(stores):
        expect_eq(s.previous_store, stores[i - 1] if i else None, "older snapshot", ctx)
        expect_eq(s.next_store, stores[i + 1] if i + 1 < len(stores) else None, "newer snapshot", ctx)
    handles = [s.open() for s in stores]
    order = [(i, b) for i in range(len(stores)) for b in img.spots]
    rng.shuffle(order)
    for i, b in order:
        handles[i].seek(b * BLOCK)
        expect_bytes(handles[i].read(BLOCK), img.window(i, b * BLOCK, BLOCK), "block of a snapshot", f"snapshot={i + 1} block={img.where[b]} {ctx}")
    for _ in range(4):
        i = rng.randrange(len(stores))
        h = handles[i] if rng.random() < 0.7 else stores[i].open()
        pos = rng.choice([rng.randrange(img.sizes[i]), max(0, rng.choice(img.spots) * BLOCK - rng.randrange(BLOCK)), max(0, img.sizes[i] - rng.randrange(2 * BLOCK))])
        n = rng.choice([1, 512, BLOCK, 3 * BLOCK, rng.randrange(1, 4 * BLOCK)])
        if rng.random() < 0.03:
            n = rng.randrange(1, 100 * BLOCK)
        h.seek(pos)
        expect_bytes(h.read(n), img.window(i, pos, n), "window of a snapshot", f"snapshot={i + 1} pos={pos} n={n} {ctx}")


def random_history(rng: random.Random, name: str) -> dict:
    n = rng.randint(2, 7)
    used = [b for b in range(n) if rng.random() < 0.6]
    ops = []
    count = 0
    most = 6 if rng.random() < 0.96 else 19  # snapshots
    for _ in range(rng.randint(5, 40) if most == 6 else 70):
        o = rng.choice(["snap", "write", "write", "write", "free", "move", "move", "amend", "stay"])
        if most > 6 and rng.random() < 0.25:
            o = "snap"
        if o == "snap":
            count += 1
        if (o == "snap" and count > most) or (o == "amend" and not count):
            continue
        ops.append({"op": o, "b": rng.randrange(n), "c": rng.randrange(n), "s": rng.randint(1, max(1, count)), "p": rng.randint(1, 2)})
    if not count:
        ops.insert(0, {"op": "snap", "b": 0, "c": 0, "s": 0, "p": 0})
    return {"id": name, "n": n, "used": used, "ops": ops}


def S01(ck: Check) -> None:
    rng = ck.rng
    sets = {frozenset({0}), frozenset({0, 1})}
    cases = []
    deeper = ck.scale(0, 1)
    for ops, blocks, n in (
        ({"snap", "write", "free", "move", "amend"}, 2, 4 + deeper),
        ({"snap", "write", "free", "move"}, 3, 5 + deeper),
        ({"snap", "write", "amend"}, 2, 5 + deeper),
        ({"snap", "write", "move", "stay"}, 2, 5 + deeper),
    ):
        recs = ck.model(tlc.run("Vss", {"Ops": ops, "MaxOps": n, "NBlocks": blocks, "MaxSnaps": 3, "UsedSets": sets}, INV, [], workers=8))
        recs.sort(key=str)
        rng.shuffle(recs)
        cases += recs[: ck.scale(1500, 12000)]
    scen = [random_history(rng, f"h{i}") for i in range(ck.scale(900, 6000))]
    recs = ck.model(tlc.run("Vss", {"Ops": set(), "MaxOps": 0, "NBlocks": 1, "MaxSnaps": 3, "UsedSets": {frozenset()}}, INV, scen, workers=8))
    recs.sort(key=lambda r: r["id"])
    cases += recs
    ck.run("history", [dict(r, phys=f"{ck.seed}-vss-{i}") for i, r in enumerate(cases)], replay_history)


REPLAY = {"history": replay_history}
