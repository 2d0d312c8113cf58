"""R01-R05: replay of the layouts emitted by Raid.tla on the real RAID streams."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.blob import Blob, noise
from vlib.harness import Check, Mismatch, expect, expect_bytes, expect_eq, outcome

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

INVARIANTS = [
    "TypeOK", "ReadsExact", "FailsOnlyWhenGone", "LayoutWellFormed", "NothingWasted", "ParityRotates",
    "FormulaIsLayout", "Refusals", "Emit",
]  # fmt: skip

CHUNKS = [512, 1024, 2048, 4096, 8192, 65536]
ODD_CHUNKS = [1536, 2560, 12288]


def cfg(id, lvl, lay, n, sz, probes=()):
    return {"id": id, "lvl": lvl, "lay": lay, "n": n, "sz": list(sz), "probes": list(probes)}


def near_far(ne, fa, o=0, s=0):
    return ne + (fa << 8) + (o << 16) + (s << 17)


LAY6 = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20]


def many(rng, usual):
    """Number of members: sometimes more than ten."""
    return rng.randint(1, usual) if rng.random() < 0.85 else rng.randint(11, 27)


def random_layout(rng, family):
    if family == "raid0":
        return 0, rng.choice([0, 1, 2]), many(rng, 10)
    if family == "parity":
        lvl = rng.choice([4, 5, 5, 6, 6, 6])
        if lvl == 6:
            return 6, rng.choice(LAY6), max(4, many(rng, 12))
        return lvl, rng.randint(0, 5), max(2, many(rng, 11))
    if family == "raid10":
        while True:
            n = max(2, many(rng, 11))
            ne, fa = rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (4, 1)])
            if n > 11:
                ne, fa = rng.choice([(ne, fa), (5, 1), (16, 1), (17, 1), (1, 5), (1, 16), (1, 18), (2, 3), (3, 2), (2, 8), (n, 1), (1, n)])
            o = rng.choice([0, 1]) if fa > 1 else 0
            s = rng.choice([0, 0, 1, 2]) if fa > 1 else 0
            if ne * fa > n or (fa > 1 and n % ne):
                continue
            fs = {0: n, 1: n // fa, 2: fa * ne}[s]
            if s and (fs < ne * fa or n % fs):
                continue
            return 10, near_far(ne, fa, o, s), n
    if family == "linear":
        return rng.choice([-1, -1, 1]), 0, many(rng, 9)
    raise ValueError(family)


def far_layout(rng: random.Random, name: str, lvl: int, lay: int, n: int, equal: bool = False) -> dict:
    """A volume far beyond 4 GiB, of which only the probed chunks are laid out."""
    top = 1 << rng.randint(18, min(27, 29 - n.bit_length()))
    if lvl in (0, -1):
        pal = [rng.randint(top // 2, top) for _ in range(1 if equal else rng.randint(1, 3))]
        sz = [rng.choice(pal) for _ in range(n)]
        vol = sum(sz)
    elif lvl == 1:
        sz = [top] * n
        vol = top
    elif lvl == 10:
        ne, fa = lay & 0xFF, (lay >> 8) & 0xFF
        sz = [top // fa * fa] * n
        vol = (sz[0] // fa * n) // ne
    else:
        sz = [top] * n
        vol = top * (n - (2 if lvl == 6 else 1))
    probes = sorted({0, vol - 1, *(rng.randrange(vol) for _ in range(6)), *(min(vol - 1, s) for s in sz)})
    return cfg(name, lvl, lay, n, sz, probes)


def scenarios(ck: Check, family: str, count: int, huge: int) -> list:
    rng = ck.rng
    out = []
    for i in range(count):
        lvl, lay, n = random_layout(rng, family)
        if lvl == 0:
            pal = [rng.randint(1, 14) for _ in range(rng.randint(1, 4))]
            sz = [rng.choice(pal) for _ in range(n)]
            if rng.random() < 0.2:
                sz = rng.sample(range(1, max(17, n + 3)), n)  # many zones
                if n > 2 and rng.random() < 0.5:
                    sz[-2] = sz[-1]
        elif lvl == -1:
            sz = [rng.randint(1, 9) for _ in range(n)]
        elif lvl == 1:
            sz = [rng.randint(1, 12)] * n
        elif lvl == 10:
            fa = (lay >> 8) & 0xFF
            sz = [fa * rng.randint(1, 7 if n <= 11 else 2)] * n
        else:
            sz = [rng.randint(1, 3 * n if n <= 12 else n)] * n
        out.append(cfg(f"r{i}", lvl, lay, n, sz))
    for i in range(huge):
        out.append(far_layout(rng, f"h{i}", *random_layout(rng, family)))
    return out


class Built:
    """Member devices for one emitted layout."""

    def __init__(self, case: dict):
        rng = random.Random(case["phys"])
        self.case = case
        lvl = case["lvl"]
        n = case["n"]
        huge = bool(case["probes"])
        if lvl in (-1, 1):
            chunk = rng.choice([512, 1024, 1536, 4096, 512 * rng.randint(1, 40)])
        else:
            chunk = rng.choice(ODD_CHUNKS) if rng.random() < 0.2 else rng.choice(CHUNKS)
        if huge and lvl not in (-1, 1):
            chunk = rng.choice([4096, 65536, 1 << 20, 4 << 20])
        self.chunk = chunk
        self.idx = list(range(case["chunks"])) if not huge else case["probes"]
        self.size = case["chunks"] * chunk
        self.content = {k: noise((case["phys"], k), chunk) for k in self.idx}
        self.fhs = []
        self.disks = {}
        for m in range(n):
            offset = rng.choice([0, 0, 512, 4096, 135680, 512 * rng.randint(1, 5000)])
            data_off = rng.choice([0, 0, 512 * rng.randint(1, 200)])
            if rng.random() < 0.03:
                offset += 1 << 33
            if rng.random() < 0.03:
                data_off += 1 << 33
            if lvl == -1:
                data_off = 0
            slack = rng.choice([0, 0, 1, chunk - 512 if chunk > 512 else 0, 100]) if lvl == 0 else 0
            area = case["sz"][m] * chunk
            tail = rng.choice([0, 512, 70000])
            fh = Blob(offset + data_off + area + slack + tail, 0xE0 + m, expose_size=rng.random() < 0.3)
            self.fhs.append((fh, offset, data_off, area + slack))
        for i, k in enumerate(self.idx):
            for p in case["places"][i]:
                fh, offset, data_off, _ = self.fhs[p["m"]]
                fh.put(offset + data_off + p["r"] * chunk, self.content[k])

    def disk(self, missing=()) -> VirtualDisk:
        rng = random.Random(self.case["phys"] + "o")
        ms = [m for m in range(self.case["n"]) if m not in missing]
        rng.shuffle(ms)
        disk_map = {}
        for m in ms:
            fh, offset, data_off, size = self.fhs[m]
            pd_size = size + (data_off if self.case["lvl"] == 1 else 0)
            disk_map[m] = (data_off, PhysicalDisk(fh.clone(), offset, pd_size))
        return VirtualDisk(
            "vd", "uuid", self.size, self.case["lvl"], self.case["lay"], self.chunk, self.case["n"], disk_map
        )

    def expected(self, pos: int, n: int) -> bytes:
        out = []
        end = min(pos + n, self.size)
        while pos < end:
            k, o = divmod(pos, self.chunk)
            t = min(self.chunk - o, end - pos)
            out.append(self.content[k][o : o + t])
            pos += t
        return b"".join(out)


def windows(b: Built, rng: random.Random, count: int):
    size, chunk = b.size, b.chunk
    if b.case["probes"]:
        known = set(b.idx)
        for k in b.idx:
            yield k * chunk, chunk
            o = rng.randrange(chunk)
            yield k * chunk + o, rng.randint(1, chunk - o)
            if k + 1 in known:
                yield k * chunk + o, chunk
        return
    for _ in range(count):
        kind = rng.randrange(4)
        if kind == 0:
            yield rng.randrange(size), rng.randint(1, size)
        elif kind == 1:
            k = rng.randrange(max(1, size // chunk))
            yield max(0, k * chunk + rng.choice([-1, 0, 1, -512, 512, chunk // 2])), rng.choice([1, 512, chunk, 2 * chunk, 3 * chunk + 1])
        elif kind == 2:
            k = rng.randrange(max(1, size // chunk))
            yield k * chunk, chunk * rng.randint(1, 5)
        else:
            yield rng.randrange(size), rng.randint(1, 2 * chunk)


def replay_content(case: dict) -> None:
    b = Built(case)
    rng = random.Random(case["phys"] + "w")
    vd = b.disk()
    ctx = f"lvl={case['lvl']} lay={case['lay']:#x} n={case['n']} sz={case['sz']} chunk={b.chunk}"
    fh = vd.open()
    if not case["probes"]:
        data = fh.read(b.size)
        expect_bytes(data, b.expected(0, b.size), "whole volume content", ctx)
        if case["lvl"] != 1:
            expect_bytes(fh.read(10), b"", "end of volume", ctx)
            fh.seek(b.size - 1)
            expect_bytes(fh.read(100), b.expected(b.size - 1, 100), "end of volume", ctx)
    fh2 = vd.open()
    for i, (pos, n) in enumerate(windows(b, rng, 12)):
        n = min(n, b.size - pos)
        if n <= 0:
            continue
        h = fh if i % 2 else fh2
        if i % 5 == 4:
            h = vd.open()
        expect_eq(h.seek(pos), pos, "seek", ctx)
        expect_bytes(h.read(n), b.expected(pos, n), "window content", f"pos={pos} n={n} {ctx}")
    # several handles on the same members
    if not case["probes"]:
        a, z = vd.open(), vd.open()
        for _ in range(4):
            p1, p2 = rng.randrange(b.size), rng.randrange(b.size)
            a.seek(p1)
            z.seek(p2)
            n = min(700, b.size - max(p1, p2))
            expect_bytes(z.read(n), b.expected(p2, n), "interleaved handles", ctx)
            expect_bytes(a.read(n), b.expected(p1, n), "interleaved handles", ctx)


def right_or_error(vd: VirtualDisk, content: bytes, chunk: int, ctx: str) -> None:
    """Whatever an incomplete set returns is what the complete set would return."""
    st, fh = outcome(vd.open)
    if st == "err":
        return
    for pos in range(0, len(content), chunk):
        fh.seek(pos)
        st, data = outcome(fh.read, chunk)
        if st == "ok":
            expect_bytes(data, content[pos : pos + chunk], "wrong data from an incomplete set", f"pos={pos} {ctx}")


def degraded_reads(open_, content: list, chunk: int, case: dict, ctx: str) -> None:
    whole = b"".join(content)
    size = len(whole)
    st, fh = outcome(open_)
    if case["refused"]:
        if st == "ok":
            # an implementation that can do better must still return the right data or fail
            for k in range(case["chunks"]):
                fh.seek(k * chunk)
                st, data = outcome(fh.read, chunk)
                if st == "ok" and data != content[k]:
                    raise Mismatch("wrong data from an incomplete set", f"chunk={k} {ctx}")
                if st == "ok" and case["lvl"] in (0, -1):
                    raise Mismatch("an incomplete set without redundancy opens", ctx)
        return
    if st == "err":
        raise Mismatch("the set opens within its redundancy", f"{type(fh).__name__}: {fh} {ctx}")
    for k in range(case["chunks"]):
        want = case["outcome"][k]
        fh = open_()
        fh.seek(k * chunk)
        st, data = outcome(fh.read, chunk)
        if st == "ok":
            expect_bytes(data, content[k], "never wrong or short data", f"chunk={k} outcome={want} {ctx}")
        else:
            expect(want != "data", "surviving data is readable", f"chunk={k} {type(data).__name__}: {data} {ctx}")
    # windows that cross chunks
    rng = random.Random(case["phys"] + "d")
    for _ in range(6):
        pos = rng.randrange(size)
        n = min(rng.randint(1, 3 * chunk), size - pos)
        fh = open_()
        fh.seek(pos)
        st, data = outcome(fh.read, n)
        touched = range(pos // chunk, (pos + n - 1) // chunk + 1)
        if st == "ok":
            expect_bytes(data, whole[pos : pos + n], "never wrong or short data", f"pos={pos} n={n} {ctx}")
        else:
            expect(any(case["outcome"][k] != "data" for k in touched), "surviving data is readable", f"pos={pos} n={n} {ctx}")


def replay_degraded(case: dict) -> None:
    import ddf
    import md

    gone = set(case["missing"])
    ctx = f"lvl={case['lvl']} lay={case['lay']:#x} n={case['n']} missing={sorted(gone)}"
    if case["route"] == "md":
        open_, content, chunk = md.incomplete(case, gone)
    elif case["route"] == "ddf":
        open_, content, chunk = ddf.incomplete(case, gone)
    else:
        b = Built(case)
        open_, content, chunk = b.disk(gone).open, [b.content[k] for k in b.idx], b.chunk
    degraded_reads(open_, content, chunk, case, f"{case['route']} {ctx}")


def replay_invalid(case: dict) -> None:
    """Levels and layouts outside the specification never produce data."""
    disk_map = {m: (0, PhysicalDisk(Blob(65536, m), 0, 65536)) for m in range(case["n"])}
    vd = VirtualDisk("vd", "u", 65536, case["lvl"], case["lay"], 4096, case["n"], disk_map)
    st, fh = outcome(vd.open)
    if st == "ok":
        st, data = outcome(fh.read, 4096)
    expect(st == "err", "unsupported layout is an error", f"{case}")


def model(ck: Check, family: str, scen: list, max_n: int, max_sz: int) -> list:
    res = tlc.run(
        "Raid",
        {"Family": family, "CU": 2, "MaxN": max_n, "MaxSz": max_sz},
        INVARIANTS,
        scen,
        workers=6,
        timeout=800,
    )
    recs = ck.model(res)
    recs.sort(key=lambda r: (r["id"], r["lvl"], r["lay"], r["n"], r["sz"], r["missing"]))
    for i, r in enumerate(recs):
        r["phys"] = f"{ck.seed}-{family}-{i}"
    return recs


def repeat(recs, times, pred=lambda r: True):
    """The same layout on several physical geometries."""
    out = list(recs)
    for t in range(1, times):
        out += [dict(r, phys=f"{r['phys']}-{t}") for r in recs if pred(r)]
    return out


def check_family(ck: Check, family: str, max_n: int, max_sz: int, count: int, huge: int, times: int) -> None:
    recs = model(ck, family, scenarios(ck, family, count, huge), max_n, max_sz)
    ck.run(family, repeat(recs, times), replay_content)


def R01(ck: Check) -> None:
    check_family(ck, "raid0", 4, ck.scale(3, 4), ck.scale(250, 900), ck.scale(30, 200), ck.scale(2, 4))
    ck.exhaustive = False


def R02(ck: Check) -> None:
    check_family(ck, "parity", ck.scale(7, 9), 1, ck.scale(150, 700), ck.scale(40, 250), ck.scale(4, 8))
    bad = [{"lvl": lvl, "lay": lay, "n": 5} for lvl in (5, 6) for lay in range(0, 40)
           if not (lvl == 5 and lay <= 5) and not (lvl == 6 and lay in LAY6)]
    ck.run("invalid", bad, replay_invalid)


def R03(ck: Check) -> None:
    check_family(ck, "raid10", ck.scale(6, 8), 1, ck.scale(150, 700), ck.scale(40, 250), ck.scale(6, 12))
    bad = [{"lvl": 10, "lay": near_far(ne, fa, o, s), "n": 4} for ne, fa in ((1, 2), (2, 1), (2, 2)) for o in (0, 1) for s in (3, 4, 7)]
    ck.run("invalid", bad, replay_invalid)


def R04(ck: Check) -> None:
    check_family(ck, "linear", 4, 3, ck.scale(250, 900), ck.scale(40, 250), ck.scale(3, 8))
    bad = [{"lvl": lvl, "lay": 0, "n": 3} for lvl in (2, 3, 7, 8, 9, 11, -2, 100, 0x1F)]
    ck.run("invalid", bad, replay_invalid)


def R05(ck: Check) -> None:
    import ddf

    scen = []
    for fam, cnt in (("parity", 12), ("raid10", 8), ("raid0", 3), ("linear", 5)):
        for c in scenarios(ck, fam, ck.scale(cnt, 4 * cnt), 0):
            if c["n"] <= 6 and max(c["sz"]) * c["n"] <= 60:
                c["id"] = fam[0] + c["id"]
                scen.append(c)
    recs = model(ck, "degraded", scen, 4, 1)
    cases = [dict(c, route="raid") for c in repeat(recs, ck.scale(1, 3))]
    # the same sets as members with metadata
    for i, c in enumerate(r for r in recs if len(r["missing"]) < r["n"]):
        cases.append(dict(c, route="md", phys=f"{ck.seed}-md-{i}"))
        if ddf.code_of(c):
            cases.append(dict(c, route="ddf", phys=f"{ck.seed}-ddf-{i}"))
    ck.run("degraded", cases, replay_degraded)


REPLAY = {"raid0": replay_content, "parity": replay_content, "raid10": replay_content, "linear": replay_content,
          "degraded": replay_degraded, "invalid": replay_invalid}  # fmt: skip
