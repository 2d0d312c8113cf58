"""N01, N02: Vinum configuration texts of VinumCfg.tla and assemblies of Vinum.tla on the real reader."""

from __future__ import annotations

import datetime
import math
import random
import struct

import raid
from vlib import tlc
from vlib.blob import Blob
from vlib.harness import Check, expect, expect_bytes, expect_eq, outcome

from dissect.volume.vinum.config import PlexOrg, PlexState, SDState, VolumeState, parse_vinum_config
from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

NOW = datetime.datetime(2024, 1, 2, 3, 4, 5, 6, tzinfo=datetime.timezone.utc)
CFG_INV = ["ParsesExactly", "Unambiguous", "Emit"]
STATES = {
    "volume": (VolumeState, {"up": VolumeState.UP}),
    "plex": (PlexState, {"up": PlexState.UP, "initializing": PlexState.INITIALIZING, "degraded": PlexState.DEGRADED, "growable": PlexState.GROWABLE}),
    "sd": (SDState, {"up": SDState.UP, "initializing": SDState.INITIALIZING, "degraded": SDState.DEGRADED, "growable": SDState.GROWABLE}),
}  # fmt: skip
ORGS = {"concat": PlexOrg.CONCAT, "striped": PlexOrg.STRIPED, "raid5": PlexOrg.RAID5}
NONE = "<none>"


# -- N01 -----------------------------------------------------------------------------------------------------------------
def size(z):
    return None if z == NONE else (-1 if z["neg"] else 1) * (z["num"] << z["shift"])


def text(s):
    return None if s == NONE else s.encode()


def state(kind: str, s):
    cls, known = STATES[kind]
    return None if s == NONE else known.get(s, cls.DOWN)


def expected(o: dict) -> tuple:
    if o["k"] == "volume":
        return ("volume", text(o["name"]), state("volume", o["state"]))
    if o["k"] == "plex":
        org = None if o["org"] == NONE else ORGS.get(o["org"], PlexOrg.DISORG)
        return ("plex", text(o["name"]), org, size(o["stripe"]), text(o["volume"]), state("plex", o["state"]))
    length = size(o["length"])
    if length is not None and length < 0:
        length = -1
    return ("sd", text(o["name"]), text(o["drive"]), length, size(o["doff"]), text(o["plex"]), size(o["poff"]), state("sd", o["state"]))


def replay_cfg(case: dict) -> None:
    raw = b"".join(b"\x00" if p == "\\0" else p.encode() for p in case["text"])
    got = parse_vinum_config(NOW, raw)
    ctx = f"text={raw!r}"
    want = {"volumes": [], "plexes": [], "sds": []}
    for o in case["objs"]:
        want[{"volume": "volumes", "plex": "plexes", "sd": "sds"}[o["k"]]].append(expected(o))
    have = {
        "volumes": [("volume", v.name, v.state) for v in got["volumes"]],
        "plexes": [("plex", p.name, p.org, p.stripesize, p.volume, p.state) for p in got["plexes"]],
        "sds": [("sd", s.name, s.drive, s.length, s.driveoffset, s.plex, s.plexoffset, s.state) for s in got["sds"]],
    }
    for k in want:
        expect_eq(have[k], want[k], k, ctx)
        expect(all(x.timestamp == NOW for x in got[k]), "timestamp of the configuration", ctx)


SIZES = ["0", "1", "512", "265s", "266s", "132k", "133K", "1m", "2G", "135680", "135679", "135680b", "-1", "-4k", "12kb", "7x", "5-5", "--5", "-", "x", "007", "3S", "1_0", "+5", "4M", "900g", "1000000000"]
STATEW = ["up", "down", "initializing", "degraded", "growable", "UP", "stale", "x"]
NAMES = ["a", "my-vol", "vol.p0.s1", "name", "state", "drive", "plex", "d#1", "it's", 'q"', "ünï", "org"]


def pieces(word: str) -> list:
    """Words are split where the specification looks at single characters."""
    out, cur = [], ""
    for c in word:
        if c in "#'\"":
            if cur:
                out.append(cur)
            out.append(c)
            cur = ""
        else:
            cur += c
    return out + ([cur] if cur else [])


def random_line(rng: random.Random) -> list:
    kind = rng.choice(["volume", "plex", "sd", "sd"])
    words: list = []
    if kind == "volume":
        words.append([rng.choice(NAMES)])
        if rng.random() < 0.8:
            words.append(["state", rng.choice(STATEW)])
        if rng.random() < 0.1:
            words.append([rng.choice(NAMES)])
    elif kind == "plex":
        words += [["name", rng.choice(NAMES)], [rng.choice(["vol", "volume"]), rng.choice(NAMES)], ["state", rng.choice(STATEW)]]
        org = rng.choice(["concat", "striped", "raid5", "striped", "?", "Striped"])
        words.append(["org", org] + ([rng.choice(SIZES)] if org in ("striped", "raid5") else []))
        if rng.random() < 0.2:
            words.append(["name", rng.choice(NAMES)])
    else:
        words += [["name", rng.choice(NAMES)], ["drive", rng.choice(NAMES)], [rng.choice(["len", "length"]), rng.choice(SIZES)], ["plex", rng.choice(NAMES)], ["state", rng.choice(STATEW)]]
        words.append(["driveoffset", rng.choice(["265s", "135680", "1m", "0", "2G", "1000000s", rng.choice(SIZES)])])
        words.append(["plexoffset", rng.choice(["0", "512k", "12345s", rng.choice(SIZES)])])
        if rng.random() < 0.1:
            words.append(["drive", rng.choice(NAMES)])
    rng.shuffle(words)
    if rng.random() < 0.15:
        words = words[: rng.randint(0, len(words))]
    flat = [kind] + [w for g in words for w in g]
    r = rng.random()
    if r < 0.05:
        flat.insert(rng.randrange(len(flat) + 1), rng.choice(["foo", "state", "name", "'x", '"', "#c"]))
    elif r < 0.08:
        flat.pop(rng.randrange(len(flat)))
    return flat


def blank(rng: random.Random, least: int) -> list:
    return [rng.choice([" ", " ", "\t"]) for _ in range(rng.choice([least, least, least, least + 1, least + 2]))]


def random_text(rng: random.Random) -> list:
    out: list = []
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < 0.1:
            out += blank(rng, 0)
        elif r < 0.2:
            out += blank(rng, 0) + ["#"] + blank(rng, 0) + pieces(rng.choice(["comment", "volume", "'"]))
        else:
            out += blank(rng, 0)
            for i, w in enumerate(random_line(rng)):
                out += (blank(rng, 1) if i else []) + pieces(w)
            out += blank(rng, 0)
            if rng.random() < 0.1:
                out += blank(rng, 1) + ["#", "volume", " ", "'"]
        out.append(rng.choice(["\n", "\n", "\\0"]))
    if rng.random() < 0.3:
        out.pop()
    return out


def N01(ck: Check) -> None:
    texts = [{"id": f"r{i}", "text": random_text(ck.rng)} for i in range(ck.scale(1500, 8000))]
    for fam, depth, scen in (("chars", ck.scale(5, 6), []), ("plex", ck.scale(4, 5), []), ("sd", ck.scale(4, 5), []), ("random", 0, texts)):
        recs = ck.model(tlc.run("VinumCfg", {"Family": fam, "MaxLen": depth}, CFG_INV, scen, workers=8, timeout=3000))
        recs.sort(key=str)
        ck.run("cfg", recs, replay_cfg)


# -- N02 -----------------------------------------------------------------------------------------------------------------
ACTIVE = [0x494E2056494E4F00, 0x56494E554D2D3100]
INACTIVE = [0x4E4F2056494E4F00, 0x56494E554D2D2D00]
DATA_START = 135680
INV = ["WellFormed", "NewestWins", "Listed", "NoSharing", "Emit"]
LEVEL = {"concat": -1, "striped": 0, "raid5": 5}
STALE = ["stale", "down", "Up", "dead"]


def geometry(case: dict) -> dict:
    """Stripe sizes and lengths of the plexes of every volume; the plexes of a volume have equal sizes."""
    rng = random.Random(case["phys"] + "g")
    geo = {}
    for vol in case["vols"]:
        unit = 512
        shapes = {}
        for p in vol["plexes"]:
            k = len(p["sds"]) - (p["org"] == "raid5")
            chunk = rng.choice([512, 1024, 1024, 4096] if len(vol["plexes"]) == 1 else [512, 1024])
            if p["org"] == "concat" or k < 1:
                chunk, k = 512, 1
            shapes[p["plex"]] = (chunk, k)
            unit = math.lcm(unit, chunk * k)
        size = unit * rng.randint(1, max(1, 24576 // unit))
        for p in vol["plexes"]:
            size = max(size, 512 * len(p["sds"]))
        size = -(-size // unit) * unit
        wins = []
        if size <= 1 << 16 and rng.random() < 0.07:  # large: only these windows are laid out
            size <<= rng.choice([12, 18])
            wins = [(0, 5000), (size - 5000, 5000), *((rng.randrange(size - 9000), rng.randint(1, 9000)) for _ in range(4))]
        for p in vol["plexes"]:
            chunk, k = shapes[p["plex"]]
            n = len(p["sds"])
            if p["org"] == "concat" and n:
                cuts = sorted(rng.sample(range(1, size // 512), n - 1)) if n > 1 else []
                marks = [0] + cuts + [size // 512]
                lens = [(b - a) * 512 for a, b in zip(marks, marks[1:])]
                offs = [m * 512 for m in marks[:-1]]
                if wins:
                    wins += [(o - 700, 1500) for o in rng.sample(offs, min(3, n)) if 700 <= o <= size - 800]
            else:
                lens = [size // k] * n
                offs = [i * chunk for i in range(n)]
            geo[vol["vol"], p["plex"]] = {"size": size, "chunk": chunk, "lens": lens, "offs": offs, "n": n, "org": p["org"], "wins": wins}
    return geo


def wanted_layout(g: dict) -> tuple | None:
    if g["org"] == "concat" or g["n"] < 1 + (g["org"] == "raid5"):
        return None
    c = g["chunk"]
    return LEVEL[g["org"]], g["n"], g["lens"][0] // c, tuple(sorted({k for a, n in g["wins"] for k in range(a // c, (a + n - 1) // c + 1)}))


def amount(rng: random.Random, n: int) -> str:
    forms = [f"{n}"]
    if n % 512 == 0:
        forms += [f"{n // 512}s", f"{n // 512}b", f"{n // 512}S"]
    if n % 1024 == 0:
        forms += [f"{n // 1024}k", f"{n // 1024}K"]
    if n and n % (1 << 20) == 0:
        forms += [f"{n >> 20}m"]
    return rng.choice(forms)


class Farm:
    """The drives of one emitted assembly."""

    def __init__(self, case: dict, layouts: dict):
        self.case = case
        rng = self.rng = random.Random(case["phys"])
        self.geo = geometry(case)
        self.sizes: dict = {}
        stem = rng.choice(["vol", "my-vol", "a", "Vol#"])

        def names(count: int, forms: list) -> list[bytes]:
            out: set = set()
            while len(out) < count + 2:
                out.add(rng.choice(forms).format(rng.randint(0, max(30, count))).encode())
            out = sorted(out)
            if rng.random() < 0.2:
                out[rng.randrange(len(out))] += rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80x", "é".encode()])
            return out

        objs = [o for v in case["vers"] for o in v["objs"]]
        top = {k: max([o["n"] for o in objs if o["k"] == k] + [o["par"] for o in objs if o["k"] == {"v": "p", "p": "s"}.get(k)] + [0]) + 1 for k in "vps"}
        top["d"] = max([o["drv"] for o in objs if o["k"] == "s"] + [len(case["drives"])]) + 1
        self.names = {
            "v": names(top["v"], [stem, stem + "{}", stem + "{}.p0"]),
            "p": names(top["p"], [stem + ".p{}", stem + "{}.p0", stem, stem + "0.p{}"]),
            "s": names(top["s"], [stem + ".p0.s{}", stem + "{}.p0.s0", stem + ".p{}.s1"]),
            "d": names(top["d"], ["drive{}", "da{}", stem + "{}"]),
        }
        rng.shuffle(self.names["d"])
        # extents of the current subdisks
        self.place: dict = {}
        self.space = {d: DATA_START for d in range(top["d"] + 1)}
        used = []
        for vol in case["vols"]:
            for p in vol["plexes"]:
                used += [(vol["vol"], p["plex"], i, s) for i, s in enumerate(p["sds"])]
        rng.shuffle(used)
        far = rng.random() < 0.1
        for v, p, i, s in used:
            g = self.geo[v, p]
            d = s["drv"]
            gap = rng.choice([0, 0, 512, 512 * rng.randint(1, 300), (1 << 33) if far else 1024])
            start = self.space[d] + gap
            self.place[s["sd"]] = {"start": start, "len": g["lens"][i], "off": g["offs"][i]}
            self.space[d] = start + g["lens"][i]
        self.times = {}
        now = rng.randint(1, 1 << 31)
        us = rng.randint(0, 900000)
        for i, v in sorted(enumerate(case["vers"], 1), key=lambda iv: iv[1]["t"]):
            self.times[i] = (now, us)
            if rng.random() < 0.5 and us < 900000:
                us += rng.randint(10, 5000)
            else:
                now += rng.randint(1, 100000)
                us = rng.randint(0, 900000)
        self.blobs = {d: self.drive(d) for d in case["order"]}
        self.content = {}
        for vol in case["vols"]:
            size = self.geo[vol["vol"], vol["plexes"][0]["plex"]]["size"]
            data = self.content[vol["vol"]] = Blob(size, f"{case['phys']}-vol{vol['vol']}")
            for p in vol["plexes"]:
                g = self.geo[vol["vol"], p["plex"]]
                shape = wanted_layout(g)
                lay = layouts.get(shape)
                for i, s in enumerate(p["sds"]):
                    if s["drv"] not in self.blobs or not s["ok"]:
                        continue
                    blob, pl = self.blobs[s["drv"]], self.place[s["sd"]]
                    if g["org"] == "concat":
                        for a, n in g["wins"] or [(0, size)]:
                            b = min(a + n, pl["off"] + pl["len"])
                            a = max(a, pl["off"])
                            if a < b:
                                blob.put(pl["start"] + a - pl["off"], data.peek_at(a, b - a))
                    elif lay:
                        c = g["chunk"]
                        for k, places in zip(shape[3] or range(size // c), lay["places"]):
                            for q in places:
                                if q["m"] == i:
                                    blob.put(pl["start"] + q["r"] * c, data.peek_at(k * c, c))

    def drive(self, d: int) -> Blob:
        rng, case = self.rng, self.case
        drive = case["drives"][d - 1]
        total = self.space[d] + rng.choice([0, 512, 100000])
        text = self.config(drive["ver"])
        if len(text) > 65536:
            raise ValueError("configuration too long")
        length = len(text) + rng.choice([0, 0, 1, 3])
        text = text.ljust(length, b"\0")
        sec, us = self.times[drive["ver"]]
        magic = rng.choice(ACTIVE if drive["act"] else INACTIVE)
        size = rng.choice([total, total - 512, rng.getrandbits(45), 0])
        self.sizes[d] = size or total
        label = struct.pack(">32s32sQQQQQ", rng.randbytes(32), self.names["d"][d], rng.getrandbits(40), rng.randrange(1000000), sec, us, size)
        blob = Blob(total, f"{case['phys']}-{d}", expose_size=rng.random() < 0.2)
        blob.put(0, bytes(4096) if rng.random() < 0.5 else rng.randbytes(4096))
        blob.put(4096, struct.pack(">QQ", magic, length) + label)
        junk = b"volume junk state up\nplex name junkp org concat vol junk state up\nsd name junks drive " + self.names["d"][d] + b" len 512 driveoffset 135680 plex junkp plexoffset 0 state up\n"
        blob.put(4608, text + (junk if len(text) + len(junk) < 65536 else b""))
        # the second copy is a fallback only
        blob.put(4608 + 65536, rng.choice([text, junk]))
        return blob

    def config(self, ver: int) -> bytes:
        rng = random.Random(f"{self.case['phys']}-v{ver}")
        vers = self.case["vers"]
        current = {("p", p["plex"]): (p["v"], v["vol"], p) for v in self.case["vols"] for p in v["plexes"]}
        current.update({("s", s["sd"]): (s["v"], None, s) for v in self.case["vols"] for p in v["plexes"] for s in p["sds"]})
        lines = []
        for o in vers[ver - 1]["objs"]:
            st = o["st"]
            if st == "stale" or (st == "down" and o["k"] == "p"):
                st = rng.choice(STALE)
            attrs = [] if st == "none" else [["state", st]]
            name = self.names[o["k"]][o["n"]].decode("latin-1")
            cur = current.get((o["k"], o["n"]))
            cur = cur if cur and cur[0] == ver else None
            if o["k"] == "v":
                words = ["volume", name] + sum(attrs, [])
            elif o["k"] == "p":
                org = []
                if o["org"] in ("striped", "raid5"):
                    chunk = self.geo[cur[1], o["n"]]["chunk"] if cur else rng.choice([512, 1024, 2048])
                    org = [["org", o["org"], amount(rng, chunk)]]
                elif o["org"] != "none":
                    org = [["org", o["org"]]]
                attrs += [["name", name], [rng.choice(["vol", "volume"]), self.names["v"][o["par"]].decode("latin-1")], *org]
                rng.shuffle(attrs)
                words = ["plex"] + sum(attrs, [])
            else:
                pl = self.place[o["n"]] if cur else {"start": rng.randint(265, 400) * 512, "len": rng.randint(1, 40) * 512, "off": rng.randint(0, 9) * 512 + o["po"]}
                if pl["start"] == DATA_START and rng.random() < 0.3:
                    start = rng.choice([[], [["driveoffset", "0"]]])
                else:
                    start = [["driveoffset", amount(rng, pl["start"])]]
                attrs += [["name", name], ["drive", self.names["d"][o["drv"]].decode("latin-1")], [rng.choice(["len", "length"]), amount(rng, pl["len"])], *start,
                          ["plex", self.names["p"][o["par"]].decode("latin-1")], ["plexoffset", amount(rng, pl["off"])]]  # fmt: skip
                rng.shuffle(attrs)
                words = ["sd"] + sum(attrs, [])
            lines.append(rng.choice([" ", "  ", "\t"]).join(words))
        rng.shuffle(lines)
        return b"".join(line.encode("latin-1") + b"\n" for line in lines)


def replay_farm(case: dict, layouts: dict) -> None:
    f = Farm(case, layouts)
    rng = f.rng
    fhs = [VinumPhysicalDisk(f.blobs[d]) if rng.random() < 0.2 else f.blobs[d] for d in case["order"]]
    ctx = f"order={case['order']} drives={case['drives']} vols={case['vols']}"
    st, vinum = outcome(Vinum, fhs[0] if len(fhs) == 1 and rng.random() < 0.5 else fhs)
    if not case["vols"]:
        expect(st == "err", "without a readable volume the drives are rejected", ctx)
        return
    if st == "err":
        raise vinum
    expect_eq(len(vinum.configurations), 1, "one configuration", ctx)
    conf = vinum.configurations[0]
    expect_eq([id(p.fh) for p in conf.physical_disks], [id(f.blobs[d]) for d in case["order"]], "physical disks", ctx)
    for d, pd in zip(case["order"], conf.physical_disks):
        drive = case["drives"][d - 1]
        want = (f.names["d"][d], f.names["d"][d].decode(errors="backslashreplace"), drive["act"], f.sizes[d])
        expect_eq((pd.id, pd.name, pd.active, pd.size), want, "drive", ctx)
        sec, us = f.times[drive["ver"]]
        want = datetime.datetime.fromtimestamp(sec, tz=datetime.timezone.utc) + datetime.timedelta(microseconds=us)
        expect(abs(pd.config_time - want) <= datetime.timedelta(microseconds=5), "time of the configuration", f"{pd.config_time} {want}")
    got = {}
    for vd in conf.virtual_disks:
        expect(vd.name not in got, "every volume once", ctx)
        got[vd.name] = vd
    names = {v["vol"]: f.names["v"][v["vol"]].decode(errors="backslashreplace") for v in case["vols"]}
    expect_eq(sorted(got), sorted(names.values()), "volumes", ctx)
    for v in case["vols"]:
        vd = got[names[v["vol"]]]
        plexes = v["plexes"]
        whole = []
        data = f.content[v["vol"]]
        for p in plexes:
            g = f.geo[v["vol"], p["plex"]]
            whole.append(g["n"] > (g["org"] == "raid5") and all(s["ok"] for s in p["sds"]))
        c2 = f"vol={v} geo={[f.geo[v['vol'], p['plex']] for p in plexes]} {ctx}"
        if len(plexes) > 1 and any(p["org"] == "raid5" and len(p["sds"]) < 2 for p in plexes):
            continue
        if len(plexes) == 1:
            p, g = plexes[0], f.geo[v["vol"], plexes[0]["plex"]]
            want = (f.names["p"][p["plex"]].decode(errors="surrogateescape"), LEVEL[p["org"]], 0, 0 if p["org"] == "concat" else g["chunk"], g["n"])
            if g["org"] == "raid5" and g["n"] < 2:
                expect_eq(vd.size, 0, "size of a RAID5 of one subdisk", c2)
                continue
        else:
            want = (f.names["v"][v["vol"]].decode(errors="surrogateescape"), 1, 0, 0, len(plexes))
        expect_eq((vd.uuid, vd.level, vd.layout, vd.stripe_size, vd.num_disks), want, "description of the volume", c2)
        expect_eq(vd.volume.name, f.names["v"][v["vol"]], "configuration of the volume", c2)
        if len(plexes) == 1:
            expect_eq((vd.plex.name, vd.plex.volume), (f.names["p"][p["plex"]], f.names["v"][v["vol"]]), "configuration of the plex", c2)
            expect_eq(sorted(sd.name for sd in vd.sds), sorted(f.names["s"][s["sd"]] for s in p["sds"]), "subdisks of the plex", c2)
        else:
            expect_eq(sorted(x.name for x in vd.plexes), sorted(f.names["p"][p["plex"]] for p in plexes), "plexes of the volume", c2)
        expect_eq(vd.size, data.length, "size of the volume", c2)
        st, fh = outcome(vd.open)
        if st == "err":
            expect(not any(whole), "a volume with a complete plex opens", f"{type(fh).__name__}: {fh} {c2}")
            continue
        n = data.length
        wins = f.geo[v["vol"], plexes[0]["plex"]]["wins"] or [(0, n), *((a, rng.randint(1, n - a)) for a in (rng.randrange(n) for _ in range(3)))]
        for a, k in wins:
            fh.seek(a)
            st, buf = outcome(fh.read, k)
            if st == "ok":
                if any(whole) or len(buf):
                    expect_bytes(buf, data.peek_at(a, k), "contents of the volume", f"pos={a} n={k} {c2}")
            else:
                expect(not any(whole), "a volume with a complete plex is readable", f"{type(buf).__name__}: {buf} {c2}")


def random_farm(rng: random.Random, i: int) -> dict:
    large = rng.choice(["drives", "plexes", "sds", "volumes"]) if rng.random() < 0.08 else ""
    nd = rng.randint(1, 8) if large != "drives" else rng.randint(17, 22)
    vers = []
    for t in rng.sample(range(1, 9), rng.choice([1, 1, 2, 3])):
        objs, sd = [], 0
        pl = 0
        for v in range(1, (rng.choice([1, 1, 2, 3]) if large != "volumes" else rng.randint(17, 20)) + 1):
            if rng.random() < 0.95:
                objs.append({"k": "v", "n": v, "par": 0, "st": rng.choice(["up", "up", "down", "none"]), "org": "", "drv": 0, "po": 0})
            for _ in range(rng.choice([1, 1, 2, 3]) if large != "plexes" or v > 1 else rng.randint(17, 20)):
                pl += 1
                par = v if rng.random() < 0.97 else rng.randint(1, 4)
                org = rng.choice(["concat", "concat", "striped", "striped", "striped", "raid5", "raid5"]) if rng.random() < 0.97 else "?"
                st = "up" if rng.random() < 0.85 else rng.choice(["down", "degraded", "initializing", "growable", "none"])
                objs.append({"k": "p", "n": pl, "par": par, "st": st, "org": org, "drv": 0, "po": 0})
                k = rng.randint(1, 5) + (org == "raid5")
                if large == "sds" and pl == 1:
                    k = rng.randint(17, 22)
                elif large in ("plexes", "volumes"):
                    k = rng.randint(1, 2) + (org == "raid5")
                order = rng.sample(range(40), k)
                for j in range(k):
                    sd += 1
                    st = "up" if rng.random() < 0.93 else rng.choice(["stale", "degraded", "initializing", "growable", "none"])
                    if large == "plexes" and v == 1 and j == 0 and pl < 17:
                        st = "stale"
                    drv = rng.randint(1, nd + (rng.random() < 0.05))
                    par = pl if rng.random() < 0.98 else rng.randint(1, 6)
                    objs.append({"k": "s", "n": sd, "par": par, "st": st, "org": "", "drv": drv, "po": order[j] * 100 + sd})
        for k in "vps":  # some objects exist in one version only
            names = [o["n"] for o in objs if o["k"] == k]
            if len(names) > 1 and rng.random() < 0.15:
                gone = rng.choice(names)
                objs = [o for o in objs if (o["k"], o["n"]) != (k, gone)]
        vers.append({"t": t, "objs": objs})
    drives = [{"act": rng.random() < 0.95, "ver": rng.randint(1, len(vers))} for _ in range(nd)]
    order = list(range(1, nd + 1))
    rng.shuffle(order)
    if nd > 1 and rng.random() < 0.25:
        order.pop()
    return {"id": f"r{i}", "vers": vers, "drives": drives, "order": order}


def N02(ck: Check) -> None:
    rng = ck.rng
    cases = []
    for fam, keep in (("one", ck.scale(700, 6000)), ("two", ck.scale(900, 4608)), ("mirror", ck.scale(500, 1280)), ("random", ck.scale(900, 6000))):
        scen = [random_farm(rng, i) for i in range(keep)] if fam == "random" else []
        recs = ck.model(tlc.run("Vinum", {"Family": fam}, INV, scen, workers=8, timeout=3000))
        recs.sort(key=str)
        rng.shuffle(recs)
        cases += recs[:keep]
    for i, c in enumerate(cases):
        c["phys"] = f"{ck.seed}-vinum-{i}"
    shapes = [{w for g in geometry(c).values() if (w := wanted_layout(g))} for c in cases]
    need = sorted(set().union(*shapes))
    layouts: dict = {}
    for fam, lvls in (("raid0", (0,)), ("parity", (5,))):
        items = [raid.cfg(f"v{lvl}", lvl, 0, n, [rows] * n, probes) for lvl, n, rows, probes in need if lvl in lvls]
        for r in ck.model(tlc.run("Raid", {"Family": fam, "CU": 2, "MaxN": 1, "MaxSz": 1}, raid.INVARIANTS, items, workers=8)):
            if r["id"].startswith("v"):
                layouts[r["lvl"], r["n"], r["sz"][0], tuple(r["probes"])] = {"places": r["places"]}
    missing = [w for w in need if w not in layouts]
    if missing:
        raise RuntimeError(f"no layout for {missing[:3]}")
    for c, ws in zip(cases, shapes):
        c["layouts"] = [[list(w), layouts[w]] for w in sorted(ws)]
    ck.run("farm", cases, replay_farm_case)


def replay_farm_case(case: dict) -> None:
    replay_farm({k: v for k, v in case.items() if k != "layouts"}, {(*w[:3], tuple(w[3])): lay for w, lay in case["layouts"]})


REPLAY = {"cfg": replay_cfg, "farm": replay_farm_case}
