"""Common machinery of all checks: case execution, verdicts, known findings, evidence."""

from __future__ import annotations

import json
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import random
import resource
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent.parent
REPO = "/repo"
EVID = ROOT / "evidence"
KNOWN = ROOT / "known_findings.txt"


class Mismatch(Exception):
    """The code under test disagrees with the specification."""

    def __init__(self, clause: str, detail: str = ""):
        super().__init__(f"{clause}: {detail}")
        self.clause = clause
        self.detail = detail


class Hang(BaseException):
    """The code under test does not terminate."""


def short(v, n: int = 300) -> str:
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


def expect(cond: bool, clause: str, detail="") -> None:
    if not cond:
        raise Mismatch(clause, short(detail() if callable(detail) else detail))


def expect_eq(got, want, clause: str, ctx="") -> None:
    if got != want or type(got) is bool and type(want) is not bool:
        raise Mismatch(clause, short(f"got {short(got, 120)} expected {short(want, 120)} {ctx}", 500))


def first_diff(a: bytes, b: bytes) -> str:
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"differs at byte {i} (lengths {len(a)}, {len(b)})"
    return f"lengths {len(a)} and {len(b)}"


def expect_bytes(got: bytes, want: bytes, clause: str, ctx="") -> None:
    if bytes(got) != bytes(want):
        raise Mismatch(clause, short(f"{first_diff(got, want)} {ctx}"))


def outcome(fn, *args):
    """('ok', value) or ('err', exception): an exception of the code under test is an observation, not a crash."""
    try:
        return "ok", fn(*args)
    except Mismatch:
        raise
    except Exception as e:  # noqa: BLE001
        return "err", e


def _alarm(signum, frame):
    raise Hang


def run_one(fn, case, limit: float):
    """None or (clause, detail)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    # again and again: at the recursion limit the handler itself cannot be called;
    # time of this process counts, so that a busy machine is not taken for a hang
    signal.setitimer(signal.ITIMER_PROF, limit, 0.05)
    signal.setitimer(signal.ITIMER_REAL, 6 * limit, 0.05)
    try:
        fn(case)
    except Mismatch as e:
        return e.clause, e.detail
    except Hang:
        return "terminates", f"no result within {limit} s"
    except MemoryError:
        return "bounded memory", "out of memory"
    except Exception as e:  # noqa: BLE001
        # raised by the code under test, or because it returned something that cannot even be compared
        where = traceback.extract_tb(e.__traceback__)
        fr = ([f for f in where if f.filename.startswith(REPO + "/dissect")] or where)[-1]
        return "no unexpected exception", f"{type(e).__name__}: {short(str(e))} in {fr.name}"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def run_many(fn, items: list, limit: float):
    """(failures, deviations, count) of some numbered cases."""
    global _DEVIATIONS
    out = []
    dev = _DEVIATIONS = {}
    for idx, case in items:
        r = run_one(fn, case, limit)
        if r:
            out.append((idx, r))
            if len(out) >= 5 or r[0] == "terminates":
                break
    return out, dev, len(items)


def bounded() -> None:
    """Limits the memory this process can take from here on."""
    pages = int(pathlib.Path("/proc/self/statm").read_text().split()[0])
    room = pages * resource.getpagesize() + (2 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (room, room))


def _worker(conn, items: list, fn, limit: float) -> None:
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    bounded()
    while True:
        first, last = conn.recv()
        conn.send(run_many(fn, items[first:last], limit))


def run_parallel(fn, items: list, limit: float, procs: int, size: int, enough: int) -> list:
    """Chunks of cases in worker processes, until enough of them failed. A chunk that ends its worker is run again,
    case by case and with fewer workers; a case that does so again has failed."""
    ctx = multiprocessing.get_context("fork")
    todo = [(i, min(i + size, len(items))) for i in range(0, len(items), size)][::-1]
    results: list = []
    workers: dict = {}  # connection: process, chunk

    try:
        while True:
            while todo and sum(w[1] is not None for w in workers.values()) < procs:
                conn = next((c for c, w in workers.items() if w[1] is None), None)
                if conn is None:
                    conn, theirs = ctx.Pipe()
                    proc = ctx.Process(target=_worker, args=(theirs, items, fn, limit), daemon=True)
                    proc.start()
                    theirs.close()
                    workers[conn] = [proc, None]
                workers[conn][1] = todo.pop()
                conn.send(workers[conn][1])
            busy = [c for c, w in workers.items() if w[1] is not None]
            if not busy or sum(len(r[0]) for r in results) >= enough:
                return results
            for conn in multiprocessing.connection.wait(busy):
                proc, (first, last) = workers[conn]
                try:
                    results.append(conn.recv())
                    workers[conn][1] = None
                except (EOFError, OSError):
                    proc.join()
                    del workers[conn]
                    procs = min(procs, 2)
                    if last - first > 1:
                        todo += [(i, i + 1) for i in range(first, last)]
                    else:
                        results.append(([(items[first][0], ("survives", f"the process ended with {proc.exitcode}"))], {}, 1))
    finally:
        for proc, _ in workers.values():
            proc.terminate()
        for proc, _ in workers.values():
            proc.join()


_DEVIATIONS: dict = {}
_CURRENT = None


def deviation(key: str, detail: str) -> None:
    """The case shows the exact deviating value of the finding ``key``: tolerated only when it is listed."""
    if key not in _CURRENT.known:
        raise Mismatch(key, detail)
    _DEVIATIONS.setdefault(key, detail)


class Check:
    def __init__(self, prop: str, tier: str, seed: int, title: str = ""):
        global _CURRENT
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list[str] = []
        self.violations: list[dict] = []
        self.findings: dict[str, str] = {}
        self.assumptions: list[str] = []
        self.notes: dict = {}
        self.known = self._load_known()
        self.replaying = False
        _CURRENT = self

    def _load_known(self) -> dict[str, str]:
        out = {}
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                if line.startswith("known:"):
                    parts = line.split(None, 3)
                    kv = dict(p.split("=", 1) for p in parts[1:3])
                    if kv["property"] == self.prop:
                        out[kv["key"]] = parts[3]
        return out

    def scale(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def model(self, res) -> list:
        """Account a TLC run."""
        self.states += res.states
        self.transitions += res.transitions
        return res.records

    def sample(self, s) -> None:
        if len(self.samples) < 6:
            self.samples.append(short(s if isinstance(s, str) else json.dumps(s), 400))

    def run(self, kind: str, cases: list, fn, limit: float = 60.0, procs: int | None = None) -> None:
        """Replay every case on the real code."""
        if not cases:
            raise RuntimeError(f"no cases for {kind}")
        self.notes[kind] = self.notes.get(kind, 0) + len(cases)
        procs = procs or min(8, os.cpu_count() or 1, max(1, len(cases) // 20))
        self.sample({"kind": kind, "case": cases[len(cases) // 2]})
        items = list(enumerate(cases))
        if procs == 1 or self.replaying:
            results = [run_many(fn, items, limit)]
        else:
            results = run_parallel(fn, items, limit, procs, max(1, min(50, len(items) // (procs * 4) or 1)), 20)
        for fails, dev, n in results:
            self.traces += n
            self.findings.update(dev)
            for idx, (clause, detail) in fails:
                self.violations.append({"kind": kind, "case": cases[idx], "clause": clause, "detail": detail})

    def violate(self, kind: str, case, clause: str, detail: str) -> None:
        self.violations.append({"kind": kind, "case": case, "clause": clause, "detail": detail})

    def finish(self, level: str = "model_checking", exhaustive: bool = False) -> int:
        EVID.mkdir(exist_ok=True)
        rep = EVID / "replay"
        rep.mkdir(exist_ok=True)
        for key, detail in sorted(self.findings.items()):
            print(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[key]} (seen: {detail})")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["none"],
                "cases": self.notes,
            },
            "wall_s": round(time.time() - self.start, 2),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
            "exhaustive": exhaustive,
        }
        rc = 0
        if self.violations:
            self.violations.sort(key=lambda v: len(json.dumps(v["case"], default=str)))
            path = rep / f"{self.prop}-{self.tier}.json"
            path.write_text(json.dumps(self.violations[:20], default=str, indent=1))
            for v in self.violations[:8]:
                print(f"  [{v['kind']}] {v['clause']}: {short(v['detail'])}  case={short(json.dumps(v['case'], default=str), 200)}")
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        print(
            f"{self.prop} {self.tier}: states={self.states} transitions={self.transitions} "
            f"replayed={self.traces} violations={len(self.violations)} wall={ev['wall_s']}s"
        )
        return rc


def import_guard() -> None:
    """The code under test must come from /repo's working tree."""
    import dissect.volume.exceptions as m

    if not os.path.realpath(m.__file__).startswith(REPO + "/"):
        print(f"dissect.volume is not imported from {REPO}: {m.__file__}", file=sys.stderr)
        sys.exit(3)
