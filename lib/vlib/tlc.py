"""Runs TLC on a module of /verif/spec and collects the JSON records its final states print."""

from __future__ import annotations

import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field

ROOT = pathlib.Path(__file__).resolve().parent.parent.parent
SPEC = ROOT / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The specification itself could not be checked: a failure of the machinery, not of the code under test."""


@dataclass
class Result:
    module: str
    records: list = field(default_factory=list)
    states: int = 0
    transitions: int = 0
    depth: int = 0
    ok: bool = True
    postcondition_failed: bool = False
    invariant: str | None = None
    output: str = ""
    actions: dict = field(default_factory=dict)


def _const(v) -> str:
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_const(x) for x in sorted(v)) + "}"
    raise TypeError(v)


def run(
    module: str,
    constants: dict,
    invariants: list[str],
    scenarios: list | dict | None = None,
    workers: int = 4,
    timeout: int = 600,
    postcondition: str | None = None,
    properties: list[str] = (),
    constraint: str | None = None,
    spec: str = "Spec",
    allow_violation: bool = False,
    view: str | None = None,
    coverage: bool = False,
    seed: int | None = None,
    simulate: tuple[int, int] | None = None,
    heap: str = "3g",
) -> Result:
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="verif-tlc-"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, tmp / f.name)
        (tmp / "scen.json").write_text(json.dumps(scenarios if scenarios is not None else []))
        lines = [f"SPECIFICATION {spec}"]
        if constants:
            lines.append("CONSTANTS")
            lines += [f"  {k} = {_const(v)}" for k, v in constants.items()]
        if invariants:
            lines.append("INVARIANTS " + " ".join(invariants))
        if properties:
            lines.append("PROPERTIES " + " ".join(properties))
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        if view:
            lines.append(f"VIEW {view}")
        lines.append("CHECK_DEADLOCK TRUE")
        (tmp / f"{module}.cfg").write_text("\n".join(lines) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={tmp}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", str(tmp / "states"), "-noGenerateSpecTE"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1])]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += ["-config", f"{module}.cfg", f"{module}.tla"]
        env = dict(os.environ, VERIF_SCEN=str(tmp / "scen.json"))
        env.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TLCError(f"TLC timed out on {module}") from e
        return parse(module, p.stdout, p.returncode, allow_violation)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parse(module: str, out: str, rc: int, allow_violation: bool) -> Result:
    res = Result(module)
    rest = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.records.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    res.output = "\n".join(rest)
    if m := re.search(r"(\d+) states generated, (\d+) distinct states found", res.output):
        res.transitions, res.states = int(m.group(1)), int(m.group(2))
    if m := re.search(r"The depth of the complete state graph search is (\d+)", res.output):
        res.depth = int(m.group(1))
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)$", res.output, re.M):
        res.actions[m.group(1)] = int(m.group(3))
    if m := re.search(r"Invariant (\w+) is violated", res.output):
        res.invariant = m.group(1)
    if re.search(r"POSTCONDITION|[Pp]ostcondition.* (violated|false)", res.output) and rc != 0:
        res.postcondition_failed = True
    res.ok = rc == 0
    if not res.ok and not (allow_violation and (res.invariant or res.postcondition_failed)):
        why = re.search(r"Invariant \w+ is violated|Deadlock reached|Assumption .*|Error: .*", res.output)
        raise TLCError(f"TLC failed on {module} (exit {rc}):\n{res.output[-6000:]}\n{why.group(0) if why else ''}")
    return res
