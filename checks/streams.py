"""D06 and G01: every opened handle behaves as a random access file, for every history of operations."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.harness import Check, Mismatch, bounded, expect_bytes, expect_eq, run_one

import kinds


def histories(ck: Check, k: int) -> list:
    return ck.model(tlc.run("Stream", {"H": 2, "Len_": 12, "K": k}, ["TypeOK", "Reads", "Isolated", "Emit"], workers=6))


WHENCE = {"set": 0, "cur": 1, "end": 2}


def volume(case: dict) -> kinds.Volume:
    if case["kind"] not in kinds.PARTITIONS:
        kinds.prepare(Check("G01", "quick", case["base"]))
    return kinds.make(case["kind"], case["variant"])


def replay_history(case: dict) -> None:
    """A batch of histories on handles of one volume kind."""
    vol = volume(case)
    even = vol.even
    for hist in case["hists"]:
        pair = [even[case["pick"] % len(even)], even[(case["pick"] + case["other"]) % len(even)]]
        fhs = [p.open() for p in pair]
        for s in hist:
            h = s["h"] - 1
            v, fh = pair[h], fhs[h]
            u = v.size // 12
            ctx = f"{case['kind']}/{case['variant']} unit={u} {hist}"
            if s["o"] == "read":
                n = s["a"] if s["a"] == -1 else s["a"] * u
                data = fh.read(n)
                expect_bytes(data, v.content(s["at"] * u, s["n"] * u), "bytes read", ctx)
            elif s["o"] == "below":
                for b in {id(b): b for p in pair for b in p.below}.values():
                    b.seek(s["a"] * u)
            else:
                expect_eq(fh.seek(s["a"] * u, WHENCE[s["o"]]), s["p"] * u, "seek returns the new position", ctx)
            expect_eq(fh.tell(), s["p"] * u, "position", ctx)


def record(kind: str, variant: int, seed: str, steps: int) -> dict:
    """Runs random operations on real handles and records what happened, without judging it."""
    out = {}
    if r := run_one(lambda _: out.update(_record(kind, variant, seed, steps)), None, 60):
        # the volume could not be set up or an operation did not return: a step no file allows
        return {"len": [0], "ops": [{"h": 1, "o": "read", "a": 0, "r": -2, "n": -2, "src": -1, "p": -2, "err": str(r)}]}
    return out


def _record(kind: str, variant: int, seed: str, steps: int) -> dict:
    rng = random.Random(seed)
    vol = kinds.make(kind, variant)
    vols = [vol.opener(rng.randrange(vol.count)) for _ in range(rng.randint(1, 3))]
    fhs = [v.open() for v in vols]
    ops = []
    pos = [0] * len(fhs)  # only used to choose arguments
    for _ in range(steps):
        h = rng.randrange(len(fhs))
        v, fh = vols[h], fhs[h]
        sc = v.scale
        size, g = v.size // sc, max(1, v.grain // sc)
        o = rng.choice(["set", "set", "cur", "end", "read", "read", "read", "read", "tell", "below"])
        s = {"h": h + 1, "o": o, "a": 0, "r": 0, "n": 0, "src": -1}
        if o == "set":
            s["a"] = rng.choice([rng.randint(0, size), g * rng.randint(0, size // g), max(0, g * rng.randint(0, size // g) + rng.choice([-1, 1])), size + rng.randint(0, 9)])
        elif o == "cur":
            s["a"] = rng.choice([rng.randint(-pos[h], size), g, 1, 0]) if pos[h] else rng.randint(0, size)
            if sc > 1:  # the numbers of the specification have 32 bits
                s["a"] = min(s["a"], max(0, size + 9 - pos[h]))
        elif o == "end":
            s["a"] = -rng.randint(0, size) if sc == 1 else -rng.choice([rng.randint(0, size), rng.randint(0, 20)])
        elif o == "read":
            s["a"] = rng.choice([-1, 0, 1, g, rng.randint(0, 3 * g), rng.randint(0, size), size + 7, 512, g - 1, 2 * g + 1])
            if sc > 1 and not 0 <= s["a"] <= 20 and v.size - fh.tell() > 20 * sc:
                s["a"] = rng.randint(0, 20)

        def units(n: int, sc: int = sc) -> int:
            return n // sc if n % sc == 0 else -2

        try:
            if o == "read":
                at = fh.tell()
                data = fh.read(s["a"] * sc if s["a"] != -1 else -1)
                s["n"] = units(len(data))
                if v.content(at, len(data)) == data:
                    s["src"] = units(at)
            elif o == "below":
                for b in v.below:
                    b.seek(rng.choice([0, rng.randint(0, 1 << 20), rng.randint(0, v.size)]))
            elif o != "tell":
                s["r"] = units(fh.seek(s["a"] * sc, WHENCE[o]))
            s["p"] = pos[h] = units(fh.tell())
        except Exception as e:  # noqa: BLE001
            s.update(o="read" if o == "read" else o, n=-2, r=-2, p=-2, err=f"{type(e).__name__}: {e}")
            ops.append(s)
            break
        ops.append(s)
    return {"len": [v.size // v.scale for v in vols], "ops": ops}


def validate(ck: Check, traces: list, label: str = "trace") -> list:
    """The verdict of StreamTrace.tla for every recorded trace."""
    strip = [{"len": t["len"], "ops": [{k: v for k, v in s.items() if k != "err"} for s in t["ops"]]} for t in traces]
    recs = ck.model(tlc.run("StreamTrace", {}, ["Decided", "Emit"], strip, workers=6))
    if sorted(r["t"] for r in recs) != list(range(1, len(traces) + 1)):
        raise tlc.TLCError(f"{label}: {len(recs)} verdicts for {len(traces)} traces")
    return sorted(recs, key=lambda r: r["t"])


def replay_trace(case: dict) -> None:
    """Re-records one trace and validates it (used for --replay)."""
    volume(case)
    tr = record(case["kind"], case["variant"], case["seed"], case["steps"])
    ck = Check("G01", "quick", 1)
    for r in validate(ck, [tr]):
        if r["verdict"] != "ok":
            raise Mismatch(r["verdict"], str(tr["ops"][r["i"] - 1]))


def recording(job: tuple) -> tuple:
    """The trace, or why there is none."""
    out = []
    bad = run_one(lambda j: out.append(record(*j)), job, 60)
    return (out[0] if out and not bad else None), bad


def traces(ck: Check, names: list[str], per_kind: int, steps: int) -> None:
    import multiprocessing

    jobs = [(k, v % kinds.VARIANTS[k], f"{ck.seed}-{k}-{v}", steps) for k in names for v in range(per_kind)]
    with multiprocessing.get_context("fork").Pool(8, bounded) as pool:
        results = pool.map(recording, jobs, chunksize=4)
    for job, (_, bad) in zip(jobs, results):
        if bad:
            ck.violate("trace", {"kind": job[0], "variant": job[1], "seed": job[2], "steps": job[3], "base": ck.seed}, *bad)
    jobs = [job for job, (tr, _) in zip(jobs, results) if tr]
    recorded = [tr for tr, _ in results if tr]
    if not recorded:
        return
    ck.notes["traces"] = len(jobs)
    ck.notes["trace_steps"] = sum(len(t["ops"]) for t in recorded)
    ck.traces += len(jobs)
    for r in validate(ck, recorded):
        if r["verdict"] != "ok":
            k, v, seed, n = jobs[r["t"] - 1]
            step = recorded[r["t"] - 1]["ops"][r["i"] - 1]
            ck.violate("trace", {"kind": k, "variant": v, "seed": seed, "steps": n, "base": ck.seed}, r["verdict"], f"{k}/{v} step {r['i']}: {step}")
    # the validation is not vacuous: the same traces with one corrupted field are rejected
    bad = []
    for t in recorded:
        for j, s in enumerate(t["ops"]):
            if s["o"] == "read" and s["n"] > 1:
                ops = [dict(x) for x in t["ops"]]
                ops[j]["src" if len(bad) % 2 else "n"] += 1
                bad.append({"len": t["len"], "ops": ops})
                break
        if len(bad) == 40:
            break
    if bad and any(r["verdict"] == "ok" for r in validate(ck, bad, "corrupted")):
        raise tlc.TLCError("a corrupted trace was accepted")


def drive(ck: Check, names: list[str], k: int, per_kind: int, steps: int, share: int) -> None:
    hists = histories(ck, k)
    hists.sort(key=str)
    cases = []
    for j, name in enumerate(names):
        for variant in range(kinds.VARIANTS[name]):
            out = {}
            run_one(lambda c, out=out: out.update(sizes=[v.size for v in kinds.make(c[0], c[1]).even]), (name, variant), 60)
            # large volumes take fewer histories; what cannot be set up is reported by the replay
            mine = share * (1 + max(out.get("sizes") or [1 << 20]) // 65536) if share > 1 else 1 + max(out.get("sizes") or [1 << 20]) // (1 << 19)
            if out.get("sizes") == []:
                continue
            mine = hists[(j + variant) % mine :: mine]
            size = 400
            for b in range(0, len(mine), size):
                cases.append({"kind": name, "variant": variant, "pick": b // size, "other": (b // size) % 2, "base": ck.seed, "hists": mine[b : b + size]})
    ck.run("history", cases, replay_history)
    traces(ck, names, per_kind, steps)


def D06(ck: Check) -> None:
    drive(ck, kinds.PARTITIONS, 3, ck.scale(60, 400), 60, 1)


def G01(ck: Check) -> None:
    kinds.prepare(ck)
    drive(ck, [k for k in kinds.VARIANTS if k not in kinds.PARTITIONS] + ["mbr"], 3, ck.scale(60, 400), 60, ck.scale(4, 1))


REPLAY = {"history": replay_history, "trace": replay_trace}
