"""L01, L02, L03: LVM2 volume groups of LvmText.tla, LvmArea.tla and Lvm.tla on the real reader."""

from __future__ import annotations

import datetime
import math
import random

from vlib import lvmimg, thinimg, tlc
from vlib.blob import Blob
from vlib.harness import Check, deviation, expect, expect_bytes, expect_eq, outcome

from dissect.volume.lvm.lvm2 import LVM2
from dissect.volume.lvm.physical import LVM2Device

AREA = ["Cells", "Newest", "Emit"]
MAP = ["WellFormed", "Mapped", "NoReuse", "Outcome", "Emit"]
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def device(rng: random.Random, text: bytes) -> Blob:
    """A device of which only the metadata matters."""
    size = 512 * rng.choice([4, 16, 100, 2048]) + 512
    while size - 512 < len(text):
        size *= 2
    at = 4096 * rng.choice([1, 1, 2, 64])
    blob = Blob(at + size + (1 << 20), f"lvm{rng.getrandbits(40)}", rng.random() < 0.3)
    offset = rng.choice([512, 512, rng.randrange(512, size - len(text) + 1)])
    lvmimg.area(rng, blob, at, size, text, offset, extra=rng.choice([None, text]))
    lvmimg.label(rng, blob, rng.randrange(4), lvmimg.new_id(rng), blob.length, (at + size, rng.choice([0, 1 << 20])), [(at, size)])
    return blob


def parsed(blob: Blob) -> dict:
    d = dict(LVM2Device(blob).metadata)
    d.pop("_raw", None)
    return d


# -- L01: texts ----------------------------------------------------------------------------------------------------------
def build_tree(case: dict, values: dict[int, object], name, key) -> dict:
    root: dict = {}
    for p in sorted(case["sections"], key=len):
        at = root
        for n in p[:-1]:
            at = at[name[n]]
        at[name[p[-1]]] = {}
    for e in case["entries"]:
        at = root
        for n in e["path"]:
            at = at[name[n]]
        at[key[e["key"]]] = values[e["from"]]
    return root


def same_tree(got, want) -> bool:
    if type(got) is not type(want):
        return False
    if isinstance(want, dict):
        return got.keys() == want.keys() and all(same_tree(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return len(got) == len(want) and all(same_tree(a, b) for a, b in zip(got, want))
    return got == want


def replay_text(case: dict) -> None:
    rng = random.Random(case["phys"])
    lines = case["lines"]
    name = {n: v for n, v in zip(["a", "b"], rng.sample(["vg0", "my-vg_1.x", "physical_volumes", "a", "b", "seg+1", "0"], 2))}
    key = {n: v for n, v in zip(["x", "y"], rng.sample(["id", "seqno", "x", "y", "extent_size", "a_b", "k2"], 2))}
    st = lvmimg.Style(rng, rng.random() < 0.2)
    spans = {e["from"]: e["to"] for e in case["entries"]}
    values = {}
    out: list[str] = []
    depth = 0
    i = 1
    while i <= len(lines):
        ln = lines[i - 1]
        if ln["k"] == "open":
            out.append(st.open(depth, name[ln["n"]]))
            depth += 1
        elif ln["k"] == "close":
            depth -= 1
            out.append(st.close(depth))
        elif ln["k"] == "val":
            values[i] = lvmimg.random_list(rng) if rng.random() < 0.4 else lvmimg.random_atom(rng)
            out.append(st.value(depth, key[ln["n"]], values[i]))
        elif ln["k"] == "arr":
            values[i] = lvmimg.random_list(rng)
            out += st.array(depth, key[ln["n"]], values[i], lvmimg.cut(rng, len(values[i]), spans[i] - i + 1))
            i = spans[i]
        else:
            out.append(st.blank())
        i += 1
    text = "\n".join(out) + rng.choice(["\n", ""])
    got = parsed(device(rng, text.encode() + b"\x00"))
    want = build_tree(case, values, name, key)
    expect(same_tree(got, want), "parsed metadata", f"got {got} expected {want} text={text!r}")


def replay_render(case: dict) -> None:
    """Rendered groups whose lines went through LvmText.tla."""
    rng = random.Random(case["phys"])
    tree, lines = small_tree(rng)
    names = {v: v for v in (n for _, n, _ in lines)}
    values = {}
    for e in case["entries"]:
        at = tree
        for n in e["path"]:
            at = at[n]
        values[e["from"]] = at[e["key"]]
    want = build_tree(case, values, names, names)
    if want != tree:
        raise RuntimeError("the specification and the encoder disagree")
    got = parsed(device(rng, ("\n".join(t for _, _, t in lines) + "\n").encode() + b"\x00"))
    expect(same_tree(got, want), "parsed metadata", f"got {got} expected {want}")


def small_tree(rng: random.Random) -> tuple[dict, list]:
    def tree(depth: int, budget: int) -> dict:
        out = {}
        for i in range(rng.randint(1, budget)):
            kind = rng.random()
            k = f"{rng.choice(['seg', 'pv', 'lv', 'x'])}{i}"
            if kind < 0.35 and depth < 4:
                out[k] = tree(depth + 1, max(1, budget // 2))
            elif kind < 0.6:
                out[k] = lvmimg.random_list(rng)
            else:
                out[k] = lvmimg.random_atom(rng)
        return out

    t = tree(0, 7)
    return t, lvmimg.render(t, lvmimg.Style(rng))


# -- L01: areas ----------------------------------------------------------------------------------------------------------
def group_text(rng: random.Random, vg: dict, name: str, extra: dict | None = None, tame: bool = False) -> bytes:
    top = {"contents": "Text Format Volume Group", "version": 1, "description": rng.choice(["", "Created *after* executing 'lvcreate'"])}
    if extra:
        top.update(extra)
    items = [(name, vg), *top.items()]
    if not tame:
        rng.shuffle(items)
    return lvmimg.text_of(dict(items), lvmimg.Style(rng, tame)).encode() + b"\x00"


def replay_ring(case: dict) -> None:
    """The text starts anywhere in its area and may continue at the beginning."""
    rng = random.Random(case["phys"])
    vg = plain_group(rng, rng.randint(1, 2), rng.randint(0, 2))
    text = group_text(rng, vg["vg"], vg["name"])
    # cells of the model become stretches of bytes: whole cells of 512 bytes, or the last cut short
    n = case["len"]
    cell = 512 * math.ceil((len(text) + 1) / n / 512)
    size = 512 + cell * case["size"]
    offset = 512 + cell * case["at"] + rng.choice([0, rng.randrange(cell)])
    if n == case["size"]:  # the area is full: only a text of its whole length
        pad = cell * n - len(text)
        text = text[:-1] + b" " * pad + b"\x00"
    at = 512 * rng.choice([8, 9, 64])
    blob = Blob(at + size + 4096, f"ring{rng.getrandbits(40)}")
    # wherever an earlier text was, its remains are
    old = group_text(rng, dict(vg["vg"], seqno=1), vg["name"])[: size - 512]
    blob.put(at + 512 + rng.randrange(size - 511 - len(old)), old)
    lvmimg.area(rng, blob, at, size, text, offset)
    lvmimg.label(rng, blob, rng.randrange(4), lvmimg.new_id(rng), blob.length, (at + size, 0), [(at, size)])
    ctx = f"area={size} offset={offset} length={len(text)}"
    got = parsed(blob)
    expect_eq(got.get(vg["name"]), vg["vg"], "parsed metadata", ctx)
    lvm = LVM2(blob)
    expect_eq((lvm.vg.name, lvm.vg.id, lvm.vg.seqno), (vg["name"], vg["vg"]["id"], vg["vg"]["seqno"]), "volume group", ctx)


def replay_choose(case: dict) -> None:
    """Devices with none, one or two metadata areas of different ages."""
    rng = random.Random(case["phys"])
    devs = case["devs"]
    vg = plain_group(rng, len(devs), 1)
    base = rng.choice([0, 0, 5, 1000])
    texts = {}
    for s in {a["seq"] for d in devs for a in d if a["seq"]}:
        texts[s] = dict(vg["vg"], seqno=base + s, status=["RESIZEABLE", "READ"] if s % 2 else ["READ"])
    blobs = []
    for i, d in enumerate(devs):
        size = 512 * 40
        spots = [4096, 4096 + size + 512 * rng.randrange(9)]
        rng.shuffle(spots)
        blob = Blob(4096 + 3 * size + (1 << 18), f"choose{rng.getrandbits(40)}", rng.random() < 0.3)
        for a, at in zip(d, spots):
            text = group_text(rng, texts[a["seq"]], vg["name"]) if a["seq"] else None
            lvmimg.area(rng, blob, at, size, text, rng.choice([512, 512 * 39, 1024]), int(a["ign"]))
            if a["bad"]:
                k = at + 4 + rng.randrange(16)
                blob.put(k, bytes([blob.peek_at(k, 1)[0] ^ (1 << rng.randrange(8))]))
        lvmimg.label(rng, blob, rng.randrange(4), vg["ids"][i], blob.length, (4096 + 3 * size, 0), [(at, size) for _, at in zip(d, spots)])
        blobs.append(blob)
    given = [blobs[i - 1] if rng.random() < 0.7 else LVM2Device(blobs[i - 1]) for i in case["order"]]
    ctx = f"areas={[[('!' if a['ign'] else '') + ('?' if a['bad'] else '') + str(a['seq']) for a in d] for d in devs]} order={case['order']}"
    st, lvm = outcome(LVM2, given)
    if not case["out"]:
        expect(st == "err", "devices without metadata are an error", ctx)
        return
    if st == "err":
        raise lvm
    want = texts[case["out"][0]]
    expect_eq(lvm.vg.seqno, want["seqno"], "sequence number of the group", ctx)
    expect_eq(lvm.vg.status, want["status"], "status of the group", ctx)
    expect_eq(sorted(p.name for p in lvm.vg.pv), sorted(want["physical_volumes"]), "physical volumes", ctx)
    for n, p in want["physical_volumes"].items():
        pv = lvm.vg.physical_volumes[n]
        expect(pv.dev is not None and pv.dev.id == p["id"].replace("-", ""), "device of a physical volume", ctx)


def plain_group(rng: random.Random, pvs: int, lvs: int) -> dict:
    ids = lvmimg.new_ids(rng, pvs)
    names = rng.sample(["pv0", "pv1", "pv2", "pv3", "pv10", "disk-a", *(f"pv{i}" for i in range(4, pvs) if i != 10)], pvs)
    vg = {
        "id": lvmimg.dashed(lvmimg.new_id(rng)),
        "seqno": rng.randint(2, 9000),
        "format": "lvm2",
        "status": ["RESIZEABLE", "READ", "WRITE"],
        "flags": [],
        "extent_size": rng.choice([1, 8, 8192, 16]),
        "max_lv": 0,
        "max_pv": 0,
        "metadata_copies": 0,
        "physical_volumes": {n: {"id": lvmimg.dashed(i), "device": "/dev/sda", "status": ["ALLOCATABLE"], "flags": [], "dev_size": 4096, "pe_start": 2048, "pe_count": 7} for n, i in zip(names, ids)},
    }
    if lvs:
        vg["logical_volumes"] = {
            f"lv{j}": {
                "id": lvmimg.dashed(lvmimg.new_id(rng)),
                "status": ["READ", "WRITE", "VISIBLE"],
                "flags": [],
                "segment_count": 1,
                "segment1": {"start_extent": 0, "extent_count": 1, "type": "striped", "stripe_count": 1, "stripes": [names[0], j]},
            }
            for j in range(lvs)
        }
    return {"name": rng.choice(["vg0", "my-vg_1.x", "a"]), "vg": vg, "ids": ids}


# -- L01: groups ---------------------------------------------------------------------------------------------------------
def some(rng: random.Random, **opts) -> dict:
    """Optional fields."""
    return {k: v for k, v in opts.items() if rng.random() < 0.5}


RAIDS = ["raid", "raid0", "raid0_meta", "raid1", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls", "raid5_ra", "raid5_rs", "raid6", "raid6_nc", "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6", "raid6_rs_6", "raid6_n_6"]  # fmt: skip


def random_segment(rng: random.Random, start: int, count: int, pvs: list[str]) -> dict:
    """A segment with the fields the tools write for its type."""
    t = rng.choice(["striped", "striped", "striped", "mirror", "snapshot", "thin", "thin-pool", "cache", "cache-pool", "writecache", "integrity", "error", "zero", "vdo", "vdo-pool", "free", "linear", "newtype", *[rng.choice(RAIDS)] * 7])
    seg = {"start_extent": start, "extent_count": count, "type": t}
    if rng.random() < 0.3:
        seg["tags"] = ["t1", "@x"][: rng.randint(1, 2)]
    seg |= some(rng, reshape_count=3, data_copies=2) if t.startswith("raid") else {}
    n = rng.randint(1, 3) if rng.random() < 0.95 else rng.randint(4, 24)
    if t in ("striped", "linear"):
        seg["stripe_count"] = n
        if n > 1:
            seg["stripe_size"] = 128
        seg["stripes"] = [x for _ in range(n) for x in (rng.choice(pvs), rng.randrange(1000))]
    elif t == "mirror":
        seg |= {"mirror_count": n, **some(rng, extents_moved=4, region_size=1024, mirror_log="log"), "mirrors": [x for i in range(n) for x in (f"m{i}", rng.randrange(9))]}
    elif t == "snapshot":
        seg |= {"chunk_size": 8, **some(rng, origin="o", cow_store="c", merging_store="m")}
    elif t == "thin":
        seg |= {"thin_pool": "pool", "transaction_id": 2, **some(rng, device_id=7, origin="o", merge="m", external_origin="e")}
    elif t == "thin-pool":
        seg |= {"metadata": "tm", "pool": "td", "transaction_id": 2, "chunk_size": 128, **some(rng, discards="passdown", zero_new_blocks=1, crop_metadata=1)}
    elif t == "cache":
        seg |= {"cache_pool": "cp", "origin": "o", **some(rng, cleaner=1, chunk_size=128, cache_mode="writeback", policy="smq", policy_settings={"a": 1, "b": 2}, metadata_format=2, metadata_start=0, metadata_len=9, data_start=9, data_len=90, metadata_id="i", data_id="j")}
    elif t == "cache-pool":
        seg |= {"data": "d", "metadata": "m", **some(rng, metadata_format=2, chunk_size=128, cache_mode="writeback", policy="smq", policy_settings={"a": 1})}
    elif t == "writecache":
        seg |= {"origin": "o", "writecache": "w", "writecache_block_size": 4096, **some(rng, high_watermark=1, low_watermark=2, fua=1, max_age=5)}
    elif t == "integrity":
        seg |= {"origin": "o", "data_sectors": 99, "mode": "J", "tag_size": 4, "block_size": 512, "internal_hash": "crc32c", **some(rng, meta_dev="m", recalculate=1, sectors_per_bit=8)}
    elif t == "vdo":
        seg |= {"vdo_pool": "vp", "vdo_offset": 3}
    elif t == "vdo-pool":
        seg |= {"data": "d", "header_size": 512, "virtual_extents": 7, **some(rng, use_compression=1, use_deduplication=1, use_metadata_hints=1, use_sparse_index=1, write_policy="auto")}
        seg |= {k: rng.randrange(1, 900) for k in ("minimum_io_size", "block_map_cache_size_mb", "block_map_era_length", "index_memory_size_mb", "max_discard", "slab_size_mb", "ack_threads", "bio_threads", "bio_rotation", "cpu_threads", "hash_zone_threads", "logical_threads", "physical_threads")}
    elif t.startswith("raid0"):
        seg |= {"stripe_count": n, **some(rng, stripe_size=128), "raid0_lvs": [f"r{i}" for i in range(n)]}
    elif t.startswith("raid"):
        seg |= {"device_count": n, **some(rng, region_size=1024, stripe_size=128, writebehind=256, min_recovery_rate=128, max_recovery_rate=512, data_offset=2048), "raids": [x for i in range(n) for x in (f"rm{i}", f"ri{i}")]}
    if rng.random() < 0.2:
        seg["type"] += rng.choice(["+METADATA_FORMAT", "+A+B"])
    return seg


def replay_group(case: dict) -> None:
    """Every field of groups with all kinds of segments."""
    rng = random.Random(case["phys"])
    g = plain_group(rng, rng.randint(1, 4), 0)
    vg = g["vg"]
    vg |= some(rng, system_id="host", allocation_policy="normal", profile="p", tags=["a", "b"], lock_type="dlm", lock_args="1.0.0:x")
    if rng.random() < 0.3:
        del vg["format"]
    for p in vg["physical_volumes"].values():
        p |= some(rng, device_id="x", device_id_type="sys_wwid", ba_start=34, ba_size=99, tags=["ssd"])
        p |= {"pe_start": rng.choice([2048, 384, 1]), "pe_count": rng.randrange(90000)}
        if rng.random() < 0.4:
            del p["dev_size"]
        else:
            p["dev_size"] = rng.randrange(1, 1 << 40)
        if rng.random() < 0.2:
            del p["device"]
    pvs = list(vg["physical_volumes"])
    lvs = {}
    for i in range(rng.choice([0, 1, 2, 4])):
        lv = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "status": rng.choice([["READ", "WRITE", "VISIBLE"], ["READ"], ["VISIBLE"], ["VISIBLE", "READ"], ["READ", "VISIBLE", "WRITE"], []]), "flags": rng.choice([[], ["ACTIVATION_SKIP"]])}
        lv |= some(rng, creation_time=rng.randrange(1, 1 << 32), creation_host="h", lock_args="x", allocation_policy="inherit", profile="p", read_ahead=256, tags=["t"])
        n = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(10, 14)
        lv["segment_count"] = n
        start = 0
        segs = []
        for j in range(n):
            cnt = rng.randint(1, 50)
            segs.append((f"segment{j + 1}", random_segment(rng, start, cnt, pvs)))
            start += cnt
        for k, v in segs:
            lv[k] = shuffled(rng, v)
        lvs[f"lv-{i}"] = lv
    if lvs or rng.random() < 0.2:
        vg["logical_volumes"] = lvs
    hist = {f"-h{i}": {"id": lvmimg.dashed(lvmimg.new_id(rng)), **some(rng, name=f"old{i}", creation_time=rng.randrange(1, 1 << 32), removal_time=rng.randrange(1, 1 << 32), origin="-h9", descendants=["a", "-b"])} for i in range(rng.choice([0, 0, 2]))}
    if hist:
        vg["historical_logical_volumes"] = hist
    top = some(rng, creation_host="host", creation_time=rng.randrange(1, 1 << 32), description="why")
    text = group_text(rng, shuffled(rng, vg), g["name"], top, rng.random() < 0.4)
    lvm = LVM2(device(rng, text) if rng.random() < 0.5 else [device(rng, text)])
    expect_eq((lvm.contents, lvm.version, lvm.creation_host), ("Text Format Volume Group", 1, top.get("creation_host")), "heading of the metadata")
    if "description" in top:
        expect_eq(lvm.description, "why", "heading of the metadata")
    same_time(lvm.creation_time, top.get("creation_time"), "creation time of the metadata")
    got = lvm.vg
    expect_eq(got.name, g["name"], "name of the group")
    fields(got, vg, ("id", "seqno", "status", "flags", "extent_size", "max_lv", "max_pv", "system_id", "allocation_policy", "profile", "metadata_copies", "tags", "format", "lock_type", "lock_args"), "group")
    expect_eq({p.name for p in got.pv}, set(vg["physical_volumes"]), "physical volumes")
    for n, p in vg["physical_volumes"].items():
        pv = got.physical_volumes[n]
        expect(pv.vg is got and pv.volume_group is got, "group of a physical volume", n)
        fields(pv, p, ("id", "status", "pe_start", "pe_count", "dev_size", "device", "device_id", "device_id_type", "ba_start", "ba_size", "tags"), n)
        size = p["dev_size"] * 512 if "dev_size" in p else (p["pe_start"] + p["pe_count"] * vg["extent_size"]) * 512
        if pv.size != size and "dev_size" in p and pv.size == p["dev_size"] * vg["extent_size"]:
            deviation("lvm-pv-size", f"dev_size {p['dev_size']} extent_size {vg['extent_size']} gives {pv.size}")
        else:
            expect_eq(pv.size, size, "size of a physical volume", str(p))
    expect_eq({v.name for v in got.lv}, set(lvs), "logical volumes")
    for n, want in lvs.items():
        lv = got.logical_volumes[n]
        fields(lv, want, ("id", "status", "flags", "segment_count", "creation_host", "lock_args", "allocation_policy", "profile", "read_ahead", "tags"), n)
        same_time(lv.creation_time, want.get("creation_time"), "creation time of a logical volume")
        expect_eq(lv.is_visible, "VISIBLE" in want["status"], "visibility", n)
        segs = {k: v for k, v in want.items() if k.startswith("segment") and k != "segment_count"}
        expect_eq([s.name for s in lv.segments], [k for k in want if k in segs], "segments", n)
        expect(lv.vg is got and lv.volume_group is got and all(x.lv is lv and x.logical_volume is lv for x in lv.segments), "group of a logical volume, volume of a segment", n)
        expect_eq(lv.type, next(iter(segs.values()))["type"].split("+")[0], "type of a logical volume", n)
        for s in lv.segments:
            w = dict(segs[s.name])
            w["type"], *flags = w["type"].split("+")
            expect_eq(list(s.flags), flags, "flags of a segment", w)
            if w["type"] == "newtype":  # only the common fields
                w = {k: w[k] for k in ("start_extent", "extent_count", "type")}
            for k in ("stripes", "mirrors", "raids"):
                if k in w:
                    w[k] = [(w[k][i], w[k][i + 1]) for i in range(0, len(w[k]), 2)]
            fields(s, w, tuple(w), f"{n} {s.name} {w['type']}")
    expect_eq(set(got.historical_logical_volumes or {}), set(hist), "historical logical volumes")
    for n, w in hist.items():
        h = got.historical_logical_volumes[n]
        fields(h, w, ("id", "origin", "descendants"), n)
        expect(h.vg is got and h.volume_group is got, "group of a historical volume", n)
        expect_eq(h.name, w.get("name", n), "name of a historical volume", n)
        same_time(h.creation_time, w.get("creation_time"), "creation time of a historical volume")
        same_time(h.removal_time, w.get("removal_time"), "removal time of a historical volume")


def shuffled(rng: random.Random, d: dict) -> dict:
    items = list(d.items())
    if rng.random() < 0.5:
        rng.shuffle(items)
    return dict(items)


def fields(got, want: dict, names: tuple, what: str) -> None:
    for n in names:
        v = getattr(got, n)
        expect(v == want.get(n) and type(v) is type(want.get(n)), f"field {n}", f"{what}: got {v!r} expected {want.get(n)!r}")


def same_time(got, want, clause: str) -> None:
    if want is None:
        expect_eq(got, None, clause)
    else:
        expect_eq(got, EPOCH + datetime.timedelta(seconds=want), clause)


def L01(ck: Check) -> None:
    rng = ck.rng
    consts = {"MaxLines": ck.scale(6, 7), "Names": {"a", "b"}, "Keys": {"x", "y"}}
    recs = ck.model(tlc.run("LvmText", {"Family": "all", **consts}, ["ReadsMeaning", "Emit"], [], workers=8))
    recs.sort(key=str)
    ck.run("text", [dict(r, phys=f"{ck.seed}-text-{i}") for i, r in enumerate(recs)], replay_text)
    scen = []
    for i in range(ck.scale(120, 600)):
        phys = f"{ck.seed}-render-{i}"
        _, lines = small_tree(random.Random(phys))
        if len(lines) <= 36:
            scen.append({"id": phys, "lines": [{"k": k, "n": n} for k, n, _ in lines]})
    recs = ck.model(tlc.run("LvmText", {"Family": "given", **consts}, ["ReadsMeaning", "Emit"], scen, workers=8))
    expect_eq(len(recs), len(scen), "every text is read to its end")
    ck.run("render", [dict(r, phys=r["id"], lines=len(r["lines"])) for r in recs], replay_render)
    recs = ck.model(tlc.run("LvmArea", {"Family": "ring", "MaxRing": ck.scale(9, 13)}, AREA, [], workers=8))
    recs.sort(key=str)
    ck.run("ring", [dict(r, phys=f"{ck.seed}-ring-{i}") for i, r in enumerate(recs)], replay_ring)
    scen = []
    for i in range(ck.scale(100, 1000)):
        k = rng.randint(2, 6) if rng.random() < 0.9 else rng.randint(17, 20)
        devs = [[{"seq": rng.choice([0, 1, 2, 9, 30, 31] if k < 7 else range(60)), "ign": False, "bad": rng.random() < 0.15} for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(k)]
        for d in devs:
            for a in d:
                if rng.random() < 0.2:
                    a |= {"ign": True, "seq": 1}
        order = rng.sample(range(1, k + 1), k)
        if k > 6 and rng.random() < 0.6:  # the device that is given last has the newest
            devs = [[{"seq": rng.randint(1, 59), "ign": False, "bad": False}] for _ in devs]
            devs[order[-1] - 1][0]["seq"] = 60
        scen.append({"devs": devs, "order": order})
    recs = ck.model(tlc.run("LvmArea", {"Family": "choose", "MaxRing": 1}, AREA, scen, workers=8))
    recs.sort(key=str)
    ck.run("choose", [dict(r, phys=f"{ck.seed}-choose-{i}") for i, r in enumerate(recs)], replay_choose)
    ck.run("group", [{"phys": f"{ck.seed}-group-{i}"} for i in range(ck.scale(1500, 15000))], replay_group)


# -- L02, L03: contents --------------------------------------------------------------------------------------------------
class Farm:
    """Physical volumes and metadata of an emitted configuration."""

    def __init__(self, rng: random.Random, rec: dict):
        self.rng = rng
        self.rec = rec
        lvs = rec["lvs"]
        thin = any(s["t"] == "thin" for lv in lvs for s in lv)
        e = rec["e"]
        self.unit = 512 * (rng.choice([128, 256]) // min(e, 2) if thin else rng.choice([1, 1, 2, 3, 8, 8, 128]))
        if not thin and rng.random() < 0.1 and all(len(q) < 2 for o in rec["out"] for q in o["units"]):  # up to many terabytes
            self.unit = 512 * rng.choice([1 << 15, 1 << 23, (1 << 28) + 8])
        self.extent = e * self.unit
        n = rec["pvs"]
        top = {p: 1 for p in range(1, n + 1)}
        for lv in lvs:
            for s in lv:
                if s["t"] == "striped":
                    for a in s["areas"]:
                        top[a["o"]] = max(top[a["o"]], a["x"] + s["count"] // len(s["areas"]))
        self.ids = dict(zip(top, lvmimg.new_ids(rng, len(top))))
        names = rng.sample(["pv0", "pv1", "pv2", "pv3", "pv4", "pv10", "p", *(f"pv{i}" for i in range(11, 11 + max(0, n - 4)))], n)
        self.pvname = dict(zip(top, names))
        lnames = rng.sample([f"lv{i}" for i in range(len(lvs))], len(lvs)) if rng.random() < 0.5 else [f"{x}-{i}" for i, x in enumerate(rng.choices(["root", "home", "lvol", "pv0"], k=len(lvs)))]
        if len(lvs) <= 16 and rng.random() < 0.15:  # names that differ in case
            lnames = ["".join(c.upper() if i >> j & 1 else c for j, c in enumerate("data")) for i in rng.sample(range(16), len(lvs))]
        self.lvname = dict(enumerate(lnames, 1))
        self.start = {p: 512 * rng.choice([2048, 384, 129, 64]) for p in top}
        self.blobs = {}
        self.count = {}
        for p in top:
            self.count[p] = top[p] + rng.choice([0, 0, 3])
            self.blobs[p] = Blob(self.start[p] + self.count[p] * self.extent + rng.choice([0, 0, 512, 1 << 16]), f"pv{rng.getrandbits(48)}", rng.random() < 0.3)
        self.said = {}
        self.pools()
        self.mirrors()
        self.metadata()

    def place(self, q: dict) -> tuple[int, int]:
        return q["pv"], self.start[q["pv"]] + q["x"] * self.unit

    def mirrors(self) -> None:
        """All legs hold the same."""
        for out in self.rec["out"]:
            for places in out["units"]:
                if len(places) > 1:
                    (p, a), *rest = [self.place(q) for q in places]
                    data = self.blobs[p].peek_at(a, self.unit)
                    for p2, a2 in rest:
                        self.blobs[p2].put(a2, data)

    def pools(self) -> None:
        """Thin volumes take blocks of the pool; its trees go to the metadata volume."""
        rng = self.rng
        self.thin = {}
        self.seg_pool = {}
        for li, lv in enumerate(self.rec["lvs"], 1):
            for s in lv:
                if s["t"] != "thin" or li in self.seg_pool:
                    continue
                d, m = (a["o"] for a in s["areas"][:2])
                users = [i for i, o in enumerate(self.rec["lvs"], 1) if o[0]["t"] == "thin" and o[0]["areas"][:2] == s["areas"][:2]]
                dsize, msize = (sum(x["count"] for x in self.rec["lvs"][k - 1]) * self.extent for k in (d, m))
                block = 512 * rng.choice([x for x in (16, 32, 128, 24) if x * 512 <= dsize])
                spots = dsize // block
                ids = rng.sample([1, 2, 3, 9, 500], len(users))
                maps = {}
                for u, i in zip(users, ids):
                    blocks = -(-sum(x["count"] for x in self.rec["lvs"][u - 1]) * self.extent // block)
                    keys = rng.sample(range(blocks), min(rng.randint(1, 8), blocks))
                    maps[i] = {k: rng.randrange(spots) for k in keys}
                while True:
                    meta = thinimg.Meta(rng, 8)
                    roots = {i: meta.build({k: thinimg.block_time(rng, v) for k, v in maps[i].items()}, 8) for i in ids}
                    mapping = meta.build({i: r.to_bytes(8, "little") for i, r in roots.items()}, 8)
                    det = meta.build({i: thinimg.details(rng) for i in ids}, 24)
                    if (meta.next + 1) * 4096 <= msize:
                        break
                img = meta.finish(mapping, det, block // 512)
                raw = img.peek_at(0, min(img.length, msize))
                units = self.rec["out"][m - 1]["units"]
                for k, places in enumerate(units):
                    part = raw[k * self.unit : (k + 1) * self.unit]
                    for q in places:
                        p, a = self.place(q)
                        self.blobs[p].put(a, part)
                for u, i in zip(users, ids):
                    origin = [a["o"] for a in self.rec["lvs"][u - 1][0]["areas"][2:]]
                    self.thin[u] = (i, block, maps[i], d, origin[0] if origin else None)
                    self.seg_pool[u] = f"pool{d}"

    def metadata(self) -> None:
        rng = self.rng
        rec = self.rec
        sectors = self.extent // 512
        lvs = {}
        for li, lv in enumerate(rec["lvs"], 1):
            entry = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "creation_time": 1400000000 + li, "creation_host": "host", "segment_count": len(lv)}
            for j, s in enumerate(lv, 1):
                seg = {"start_extent": s["start"], "extent_count": s["count"], "type": s["t"]}
                if s["t"] == "striped":
                    seg["stripe_count"] = len(s["areas"])
                    if len(s["areas"]) > 1:
                        seg["stripe_size"] = s["sz"] * self.unit // 512
                    elif rng.random() < 0.1:
                        seg["stripe_size"] = 128
                    seg["stripes"] = [x for a in s["areas"] for x in (self.pvname[a["o"]], a["x"])]
                elif s["t"] == "mirror":
                    seg |= {"mirror_count": len(s["areas"]), "region_size": 1024, "mirrors": [x for a in s["areas"] for x in (self.lvname[a["o"]], a["x"])]}
                    if rng.random() < 0.4:
                        seg["mirror_log"] = "no-log"
                elif s["t"] == "thin":
                    seg |= {"thin_pool": self.seg_pool[li], "transaction_id": 1, "device_id": self.thin[li][0]}
                    if rng.random() < 0.3:
                        seg["origin"] = rng.choice(list(self.lvname.values()))
                    if self.thin[li][4]:
                        seg["external_origin"] = self.lvname[self.thin[li][4]]
                    pool = {"start_extent": 0, "extent_count": 1, "type": "thin-pool", "metadata": self.lvname[s["areas"][1]["o"]], "pool": self.lvname[s["areas"][0]["o"]], "transaction_id": 1, "chunk_size": self.thin[li][1] // 512, "discards": "passdown", "zero_new_blocks": 1}
                    lvs[self.seg_pool[li]] = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "status": ["READ", "WRITE"], "flags": [], "segment_count": 1, "segment1": pool}
                else:
                    seg["type"] = rng.choice(["error", "zero", "newtype"])
                entry[f"segment{j}"] = seg
            lvs[self.lvname[li]] = entry
        items = list(lvs.items())
        if rng.random() < 0.6:
            rng.shuffle(items)
        pvs = {}
        for p in rng.sample(sorted(self.blobs), len(self.blobs)):
            pvs[self.pvname[p]] = {"id": lvmimg.dashed(self.ids[p]), "device": f"/dev/sd{p}", "status": ["ALLOCATABLE"], "flags": [], "pe_start": self.start[p] // 512, "pe_count": self.count[p]}
            if rng.random() < 0.7:
                pvs[self.pvname[p]]["dev_size"] = self.blobs[p].length // 512
        vg = {"id": lvmimg.dashed(lvmimg.new_id(rng)), "seqno": 7, "format": "lvm2", "status": ["RESIZEABLE", "READ", "WRITE"], "flags": [], "extent_size": sectors, "max_lv": 0, "max_pv": 0, "metadata_copies": 0, "physical_volumes": pvs, "logical_volumes": dict(items)}
        name = rng.choice(["vg", "data_vg", "x"])
        tame = rng.random() < 0.5
        bare = {p for p in self.blobs if rng.random() < 0.2} - {rng.choice(rec["order"] or [0])}
        for p, blob in self.blobs.items():
            text = group_text(rng, vg, name, None, tame)
            at = 4096
            size = self.start[p] - at
            if len(text) > size - 512:
                text = group_text(rng, vg, name, None, True)
            fits = len(text) <= size - 512
            if p in bare:
                fits = False
            elif fits:
                lvmimg.area(rng, blob, at, size, text, rng.choice([512, 512 * rng.randrange(1, size // 512)]))
            else:
                self.no_text = True
            hdr = rng.choice([blob.length, blob.length, blob.length, 0, blob.length // 2])
            room = rng.choice([0, 0, blob.length - self.start[p]])
            self.said[p] = (hdr, room)
            lvmimg.label(rng, blob, rng.choice([1, 1, 0, 2, 3]), self.ids[p], hdr, (self.start[p], room), [(at, size)] if fits else [])

    no_text = False

    def size(self, li: int) -> int:
        return sum(s["count"] for s in self.rec["lvs"][li - 1]) * self.extent

    def expected(self, li: int, pos: int, n: int) -> bytes:
        n = max(0, min(n, self.size(li) - pos))
        out = []
        while n > 0:
            if li in self.thin:
                _, block, m, d, origin = self.thin[li]
                b, o = divmod(pos, block)
                k = min(block - o, n)
                if b in m:
                    out.append(self.expected(d, m[b] * block + o, k))
                else:
                    out.append((self.expected(origin, pos, k) if origin else b"").ljust(k, b"\x00"))
            else:
                u, o = divmod(pos, self.unit)
                k = min(self.unit - o, n)
                p, a = self.place(self.rec["out"][li - 1]["units"][u][0])
                out.append(self.blobs[p].peek_at(a + o, k))
            pos += k
            n -= k
        return b"".join(out)

    def supply(self) -> list:
        out = []
        for p in self.rec["order"]:
            b = self.blobs[p].clone()
            b.seek(self.rng.choice([0, 700]))
            out.append(b if self.rng.random() < 0.8 else LVM2Device(b))
        return out


def replay_map(case: dict) -> None:
    rng = random.Random(case["phys"])
    f = Farm(rng, case)
    while f.no_text:
        f = Farm(rng, case)
    ctx = f"e={case['e']} lvs={case['lvs']} missing={case['missing']} order={case['order']} unit={f.unit}"
    given = f.supply()
    if not given:
        return
    lvm = LVM2(given if len(given) > 1 or rng.random() < 0.5 else given[0])
    p = rng.choice(case["order"])
    dev = LVM2Device(f.blobs[p].clone())
    hdr, room = f.said[p]
    expect_eq((dev.id, dev.size), (f.ids[p], hdr), "identifier and size of a device", ctx)
    last = min(room or hdr, f.blobs[p].length - f.start[p]) // 512
    for _ in range(3 if last else 0):
        k = rng.randrange(last)
        n = rng.choice([1, 2, rng.randint(1, last - k)])
        n = min(n, last - k, 2000)
        expect_bytes(dev.read_sectors(k, n), f.blobs[p].peek_at(f.start[p] + 512 * k, 512 * n), "sectors of a device", f"sector={k} count={n} size={hdr} area={room} {ctx}")
        if (k + n) * 512 <= hdr:
            fh = dev.open()
            fh.seek(512 * k)
            expect_bytes(fh.read(512 * n), f.blobs[p].peek_at(f.start[p] + 512 * k, 512 * n), "data area of a device", f"sector={k} count={n} size={hdr} area={room} {ctx}")
    handles = {}
    for li in rng.sample(range(1, len(case["lvs"]) + 1), len(case["lvs"])):
        lv = lvm.vg.logical_volumes[f.lvname[li]]
        st, fh = outcome(lv.open)
        if not case["out"][li - 1]["ok"]:
            expect(st == "err", "a volume that needs a missing or unsupported part is an error", f"lv={li} {ctx}")
            # a mirror whose legs are all lost need not name one, nor what is on top of it
            types = {s["t"] for s in case["lvs"][li - 1]}
            types |= {s["t"] for t in case["lvs"][li - 1] if t["t"] == "thin" for a in t["areas"] for s in case["lvs"][a["o"] - 1]}
            lost = {f.pvname[p] for p in case["missing"]}
            if types <= {"striped", "thin"}:
                expect(any(n in str(fh) for n in lost), "the error names a missing volume", f"lv={li} error={fh!r} {ctx}")
            continue
        if st == "err":
            raise fh
        size = f.size(li)
        handles[li] = fh
        expect_eq(fh.seek(0, 2), size, "size of the volume", f"lv={li} {ctx}")
        fh.seek(0)
        if size <= 1 << 20:
            expect_bytes(fh.read(), f.expected(li, 0, size), "contents of the volume", f"lv={li} {ctx}")
            expect_bytes(fh.read(3), b"", "end of the volume", f"lv={li} {ctx}")
    for _ in range(6 if handles else 0):
        li = rng.choice(sorted(handles))
        size = f.size(li)
        pos = rng.choice([rng.randrange(size), rng.randrange(size // 512) * 512, max(0, rng.randrange(size // f.unit) * f.unit - rng.choice([0, 1, 512]))])
        n = min(rng.choice([1, 512, f.unit, rng.randint(1, 3 * f.unit), rng.randint(1, min(size, 1 << 18))]), 1 << 19)
        handles[li].seek(pos)
        expect_bytes(handles[li].read(n), f.expected(li, pos, n), "window of the volume", f"lv={li} pos={pos} n={n} {ctx}")


def random_map(rng: random.Random, name: str, missing: bool) -> dict:
    e = rng.choice([1, 2, 3, 4, 6])
    wide = 3 if rng.random() < 0.9 else rng.choice([13, 21])  # stripes of a segment
    many = rng.choice([12, 19]) if rng.random() < 0.1 else 0  # segments
    n = rng.randint(1, 4) if wide == 3 else rng.randint(5, wide)
    free = {p: rng.choice([0, 0, 2]) for p in range(1, n + 1)}
    lvs: list = []

    def take(p: int, k: int) -> int:
        x = free[p]
        free[p] += k + rng.choice([0, 0, 1])
        return x

    def striped(start: int, wide: int, rows: int) -> dict:
        w = rng.randint(1, wide)
        pvs = rng.sample(sorted(free), w) if w <= n and rng.random() < 0.8 else rng.choices(sorted(free), k=w)
        div = [d for d in range(1, rows * e + 1) if (rows * e) % d == 0]
        return {"t": "striped", "start": start, "count": rows * w, "sz": rng.choice(div) if w > 1 else 0, "areas": [{"o": p, "x": take(p, rows)} for p in pvs]}

    def plain(total: int | None = None) -> list:
        segs = []
        start = 0
        while (total is None and len(segs) < (1 + rng.choice([0, 0, 1, 3]) if not many else many)) or (total is not None and start < total):
            if total is None:
                s = striped(start, wide if not many else 1, rng.randint(1, 3))
            else:
                s = striped(start, 1, rng.randint(1, total - start))
            segs.append(s)
            start += s["count"]
        if rng.random() < 0.3:
            rng.shuffle(segs)
        return segs

    for _ in range(rng.randint(1, 3)):
        lvs.append(plain())
    if rng.random() < 0.5:  # a mirror of one or two segments
        total = rng.randint(1, 4)
        off = rng.choice([0, 0, 1])
        legs = []
        for _ in range(rng.randint(1, 3) if rng.random() < 0.95 else 18):
            lvs.append(plain(total + off))
            legs.append(len(lvs))
        cutat = rng.randint(1, total)
        segs = []
        for a, b in ((0, cutat), (cutat, total)):
            if a < b:
                segs.append({"t": "mirror", "start": a, "count": b - a, "sz": 0, "areas": [{"o": i, "x": a + off} for i in legs]})
        lvs.append(segs)
    if rng.random() < 0.3:  # a pool and one or two thin volumes
        lvs.append(plain(rng.randint(1, 4)))
        d = len(lvs)
        lvs.append(plain(rng.randint(2, 3)))
        for _ in range(rng.randint(1, 2)):
            origin = [{"o": rng.randrange(1, d), "x": 0}] if rng.random() < 0.4 else []  # unmapped blocks come from there
            lvs.append([{"t": "thin", "start": 0, "count": rng.randint(1, 5), "sz": 0, "areas": [{"o": d, "x": 0}, {"o": d + 1, "x": 0}, *origin]}])
    if rng.random() < 0.2:
        lvs.append([{"t": "other", "start": 0, "count": 2, "sz": 0, "areas": []}])
    gone = [p for p in free if missing and rng.random() < 0.3]
    order = [p for p in rng.sample(sorted(free), n) if p not in gone]
    return {"id": name, "e": e, "pvs": n, "lvs": lvs, "missing": gone, "order": order}


def L02(ck: Check) -> None:
    recs = ck.model(tlc.run("Lvm", {"Family": "stripes"}, MAP, [], workers=8))
    recs.sort(key=str)
    if not ck.thorough:
        ck.rng.shuffle(recs)
        recs = recs[:3000]
    ck.run("map", [dict(r, phys=f"{ck.seed}-stripes-{i}") for i, r in enumerate(recs)], replay_map)
    scen = [random_map(ck.rng, f"r{i}", False) for i in range(ck.scale(800, 6000))]
    recs = ck.model(tlc.run("Lvm", {"Family": "random"}, MAP, scen, workers=8))
    ck.run("map", [dict(r, phys=f"{ck.seed}-{r['id']}") for r in recs], replay_map)


def L03(ck: Check) -> None:
    recs = ck.model(tlc.run("Lvm", {"Family": "missing"}, MAP, [], workers=8))
    recs.sort(key=str)
    if not ck.thorough:
        ck.rng.shuffle(recs)
        recs = recs[:1500]
    ck.run("map", [dict(r, phys=f"{ck.seed}-missing-{i}") for i, r in enumerate(recs)], replay_map)
    scen = [random_map(ck.rng, f"m{i}", True) for i in range(ck.scale(800, 6000))]
    recs = ck.model(tlc.run("Lvm", {"Family": "random"}, MAP, scen, workers=8))
    ck.run("map", [dict(r, phys=f"{ck.seed}-{r['id']}") for r in recs], replay_map)


REPLAY = {"text": replay_text, "render": replay_render, "ring": replay_ring, "choose": replay_choose, "group": replay_group, "map": replay_map}
