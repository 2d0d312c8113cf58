"""T01, T02: thin pools with the trees and mappings of Thin.tla on the real reader."""

from __future__ import annotations

import random
import struct

from vlib import thinimg, tlc
from vlib.blob import Blob
from vlib.harness import Check, expect, expect_bytes, expect_eq, outcome

from dissect.volume.dm.btree import BTree
from dissect.volume.dm.thin import ThinPool

INV = ["FindsExactly", "Brackets", "ReadsWindow", "Emit"]


class Pool:
    """A pool of several devices; ``maps`` gives per device {block: data block}."""

    def __init__(self, rng: random.Random, maps: dict[int, dict[int, int]], block: int, top: int, extra: tuple = ()):
        self.rng = rng
        self.maps = maps
        self.block = block
        meta = thinimg.Meta(rng, rng.choice([8, 8, 8, 4, 16]))
        roots = {}
        for dev in rng.sample(sorted(maps), len(maps)):
            if maps[dev] or rng.random() < 0.7:  # a device without mappings may lack a tree
                roots[dev] = meta.build({k: thinimg.block_time(rng, v) for k, v in maps[dev].items()}, 8)
        mapping = meta.build({d: r.to_bytes(8, "little") for d, r in roots.items()}, 8)
        det = meta.build({d: thinimg.details(rng) for d in [*maps, *extra]}, 24)
        self.meta = meta.finish(mapping, det, block // 512, rng.random() < 0.3)
        self.data = Blob((top + 1) * block, f"data{rng.getrandbits(40)}", rng.random() < 0.3)

    def open(self) -> ThinPool:
        self.meta.seek(self.rng.choice([0, 0, 512, 5000]))
        self.data.seek(self.rng.choice([0, 100]))
        return ThinPool(self.meta, self.data)

    def expected(self, dev: int, pos: int, n: int, size: int | None, origin: Blob | None = None) -> bytes:
        if size is not None:
            n = max(0, min(n, size - pos))
        out = []
        while n > 0:
            b, o = divmod(pos, self.block)
            k = min(self.block - o, n)
            src = self.maps[dev].get(b)
            hole = origin.peek_at(pos, max(0, min(k, origin.length - pos))) if origin else b""
            out.append(hole.ljust(k, b"\x00") if src is None else self.data.peek_at(src * self.block + o, k))
            pos += k
            n -= k
        return b"".join(out)


def sample_pool(rng: random.Random, maps: dict) -> Pool:
    """Gives symbolic data blocks real places."""
    block = 512 * rng.choice([1, 2, 8, 8, 128, 3 * 128, 5])
    top = rng.choice([20, 300, 1 << 20, (1 << 40) - 1])
    used = sorted({v for m in maps.values() for v in m.values()})
    spots = rng.sample(range(max(top - 400, 0), top + 1) if rng.random() < 0.5 else range(min(top, 400) + 1), len(used)) if len(used) <= min(top, 400) else None
    if spots is None:
        top = 4 * len(used)
        spots = rng.sample(range(top), len(used))
    spots = dict(zip(used, spots))
    return Pool(rng, {d: {b: spots[v] for b, v in m.items()} for d, m in maps.items()}, block, top)


# -- T01 -----------------------------------------------------------------------------------------------------------------
def replay_read(case: dict) -> None:
    rng = random.Random(case["phys"])
    n = len(case["map"])
    base = rng.choice([0, 0, 0, 1, 1 << 20, (1 << 33) + 5])
    main = {base + i: v for i, v in enumerate(case["map"]) if v}
    ids = rng.sample([0, 1, 2, 3, 7, 200, (1 << 24) - 1], rng.randint(1, 3))
    maps = {ids[0]: main}
    for d in ids[1:]:
        maps[d] = {base + i: rng.randint(1, 6) for i in range(n + 2) if rng.random() < 0.6}
    p = sample_pool(rng, maps)
    pool = p.open()
    dev = ids[0]
    size = rng.choice([None, (base + n) * p.block, (base + n) * p.block - rng.randrange(p.block), (base + n + 2) * p.block, (base + n - 1) * p.block + 512])
    fh = pool.open(dev, size) if size is not None or rng.random() < 0.5 else pool.open(dev)
    ctx = f"map={case['map']} first={base} block={p.block} size={size}"
    # the window of the model, in whole blocks
    want = b"".join(bytes(p.block) if not s else p.data.peek_at(p.maps[dev][base + case["from"] + i] * p.block, p.block) for i, s in enumerate(case["out"]))
    pos = (base + case["from"]) * p.block
    if size is not None:
        want = want[: max(0, size - pos)]
    fh.seek(pos)
    expect_bytes(fh.read(case["len"] * p.block), want, "contents of the window", f"from={case['from']} len={case['len']} {ctx}")
    # windows within blocks, and other handles in between
    other = pool.open(rng.choice(ids), None)
    for _ in range(4):
        a = base * p.block + rng.randrange((n + 1) * p.block)
        k = rng.choice([1, 512, p.block, rng.randint(1, (n + 1) * p.block)])
        h = fh if rng.random() < 0.5 else pool.open(dev, size)
        h.seek(a)
        expect_bytes(h.read(k), p.expected(dev, a, k, size), "contents of the window", f"pos={a - base * p.block} n={k} {ctx}")
        a = base * p.block + rng.randrange((n + 1) * p.block)
        other.seek(a)
        expect_bytes(other.read(700), p.expected(other.device_id, a, 700, None), "contents of another device", ctx)
    # holes show the external origin, as far as it goes
    origin = Blob(rng.choice([0, 512, p.block, (base + n) * p.block, (base + n + 3) * p.block, rng.randrange((base + n) * p.block)]), f"origin-{case['phys']}")
    h = pool.open(dev, size, origin)
    for _ in range(3):
        a = base * p.block + rng.randrange((n + 1) * p.block)
        k = rng.choice([1, p.block, rng.randint(1, (n + 1) * p.block)])
        h.seek(a)
        origin.seek(rng.choice([0, 7]))
        expect_bytes(h.read(k), p.expected(dev, a, k, size, origin), "contents with an external origin", f"pos={a - base * p.block} n={k} origin={origin.length - base * p.block} {ctx}")
    if size is not None and base == 0:
        h = pool.open(dev, size)
        expect_bytes(h.read(), p.expected(dev, 0, size, size), "whole device", ctx)
        expect_bytes(h.read(1), b"", "end of the device", ctx)


def T01(ck: Check) -> None:
    rng = ck.rng
    scen = []
    for i in range(ck.scale(400, 3000)):
        n = rng.randint(5, 40)
        hole = rng.choice([0.1, 0.5, 0.9])
        m = [0 if rng.random() < hole else rng.randint(1, 30) for _ in range(n)]
        if rng.random() < 0.3:  # contiguous data blocks
            m = [0 if v == 0 else j + 1 for j, v in enumerate(m)]
        a = rng.randrange(n)
        scen.append({"id": "s", "map": m, "from": a, "len": rng.randint(1, n + 2 - a)})
    recs = ck.model(tlc.run("Thin", {"Family": "read", "MaxKey": 1, "MaxBlocks": ck.scale(4, 5)}, INV, scen, workers=8))
    recs.sort(key=str)
    for i, r in enumerate(recs):
        r["phys"] = f"{ck.seed}-thin-{i}"
    ck.run("read", recs, replay_read)


# -- T02 -----------------------------------------------------------------------------------------------------------------
def scaler(rng: random.Random, top: int, limit: int) -> list[int]:
    kind = rng.randrange(3)
    if kind == 0:
        return list(range(top + 2))
    if kind == 1:
        first = rng.randint(0, limit - 2 * top - 4)
        return sorted(rng.sample(range(first, first + 2 * top + 3), top + 2))
    keys = {limit - 1}
    while len(keys) < top + 2:
        keys.add(rng.randrange(limit))
    return sorted(keys)


def replay_tree(case: dict) -> None:
    """One tree on its own, looked up with every key."""
    rng = random.Random(case["phys"])
    meta = thinimg.Meta(rng, rng.choice([8, 8, 1, 16]))
    keys = scaler(rng, case["top"], 1 << 64)
    size = rng.choice([8, 24, 4])
    values = {k: rng.randbytes(size) for k in range(case["top"] + 2)}
    root = meta.emitted(case["tree"], lambda k: keys[k], lambda k: values[k], size)
    blob = meta.finish(root, root, 8)
    tree = BTree(blob, root, meta.sectors)
    stored = {keys[k]: values[k] for k in case["stored"]}
    probe = sorted({*keys, *(min(k + 1, (1 << 64) - 1) for k in keys), *(max(k - 1, 0) for k in keys)})
    rng.shuffle(probe)
    for k in probe:
        got = tree.lookup(k) if rng.random() < 0.5 else tree.lookup([k])
        expect_eq(None if got is None else bytes(got), stored.get(k), "entry of a key", f"key={keys.index(k) if k in keys else '-'} tree={case['tree']}")


def replay_pool(case: dict) -> None:
    """A device tree, a details tree and mapping trees of emitted shapes."""
    rng = random.Random(case["phys"])
    top = case["top"]
    meta = thinimg.Meta(rng, 8)
    ids = scaler(rng, top, 1 << 24)
    blocks = {d: scaler(rng, top, 1 << 40) for d in range(top + 2)}
    block = 512 * rng.choice([1, 8, 128])
    data = Blob(block << 16, f"data-{case['phys']}")
    place = {(d, b): rng.randrange(1 << 16) for d in range(top + 2) for b in range(top + 2)}
    roots = {d: meta.emitted(t["tree"], lambda k, d=d: blocks[d][k], lambda k, d=d: thinimg.block_time(rng, place[d, k]), 8) for d, t in enumerate(case["maps"])}
    mapping = meta.emitted(case["devs"]["tree"], lambda k: ids[k], lambda k: roots[k].to_bytes(8, "little"), 8)
    about = {k: thinimg.details(rng) for k in range(top + 2)}
    details = meta.emitted(case["details"]["tree"], lambda k: ids[k], lambda k: about[k], 24)
    fh = meta.finish(mapping, details, block // 512)
    fh.seek(rng.choice([0, 4096]))
    pool = ThinPool(fh, data)
    known = set(case["details"]["stored"])
    mapped = set(case["devs"]["stored"])
    ctx = f"devs={case['devs']['stored']} details={case['details']['stored']} maps={[m['stored'] for m in case['maps']]}"
    for d in rng.sample(range(top + 2), top + 2):
        st, dev = outcome(pool.open, ids[d], 1 << 62)
        if d not in known:
            expect(st == "err", "an unknown device is an error", f"dev={d} {ctx}")
            continue
        if st == "err":
            raise dev
        w = dev.details
        expect_eq((dev.device_id, w.mapped_blocks, w.transaction_id, w.creation_time, w.snapshotted_time), (ids[d], *struct.unpack("<QQII", about[d])), "description of a device", f"dev={d} {ctx}")
        for b in range(top + 2):
            dev.seek(blocks[d][b] * block)
            there = d in mapped and b in case["maps"][d]["stored"]
            want = data.peek_at(place[d, b] * block, block) if there else bytes(block)
            expect_bytes(dev.read(block), want, "block of a device", f"dev={d} block={b} mapped={there} {ctx}")
    for k in (ids[0] - 1, ids[-1] + 1):
        if k >= 0:
            st, _ = outcome(pool.open, k, 4096)
            expect(st == "err", "an unknown device is an error", f"dev={k} {ctx}")


def replay_deep(case: dict) -> None:
    """Thousands of mappings, several levels."""
    rng = random.Random(case["phys"])
    top = 1 << 22
    count = case["count"]
    maps = {}
    for d in rng.sample(range(1 << 24), 3):
        first = rng.randrange(1 << 30)
        maps[d] = {k: rng.randrange(top) for k in rng.sample(range(first, first + 3 * count), count)}
    p = Pool(rng, maps, 512, top, extra=(1 << 24,))
    pool = p.open()
    for d in maps:
        fh = pool.open(d)
        near = [k + o for k in rng.sample(sorted(maps[d]), min(60, count)) for o in (-1, 0, 1)] + [0, 1 << 36]
        for k in near:
            if k >= 0:
                fh.seek(k * 512)
                expect_bytes(fh.read(512), p.expected(d, k * 512, 512, None), "block of a device", f"block={k} mapped={k in maps[d]} count={count}")
    fh = pool.open(1 << 24, 4096)
    expect_bytes(fh.read(), bytes(4096), "a device without mappings", "")


def T02(ck: Check) -> None:
    rng = ck.rng
    top = ck.scale(5, 6)
    recs = ck.model(tlc.run("Thin", {"Family": "tree", "MaxKey": top, "MaxBlocks": 1}, INV, workers=8))
    recs.sort(key=str)
    ck.run("tree", [dict(r, top=top, phys=f"{ck.seed}-tree-{i}") for i, r in enumerate(recs)], replay_tree)
    rng.shuffle(recs)
    cases = []
    for i, r in enumerate(recs[: ck.scale(800, 5000)]):
        full = [x for x in rng.choices(recs, k=40) if len(x["stored"]) > top // 2]
        cases.append({"top": top, "devs": r, "details": rng.choice(full or recs), "maps": [rng.choice(recs) for _ in range(top + 2)], "phys": f"{ck.seed}-pool-{i}"})
    ck.run("pool", cases, replay_pool)
    ck.run("deep", [{"count": rng.choice([1, 10, 300, 2000]), "phys": f"{ck.seed}-deep-{i}"} for i in range(ck.scale(12, 60))], replay_deep)


REPLAY = {"read": replay_read, "tree": replay_tree, "pool": replay_pool, "deep": replay_deep}
