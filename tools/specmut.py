#!/usr/bin/env python3
"""Changes to the specifications, to see that nothing in them is idle.

A change of the reader's side alone must be refused by TLC (an invariant that relates it to the
declarative side is violated); a change of the meaning itself, which the invariants cannot see, must
be refused by the code when the behaviours are replayed.  The specification and the code hold each
other in place only if both happen.

    specmut.py [module ...]         runs the checks on scratch copies, prints one line per change
"""

import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

# module, property, what TLC or the code must notice, [(old, new)]
CHANGES = [
    ("Mbr", "D01", "tlc", [("ELSE BAdd(Top.outer, Entry.ofs)", "ELSE BAdd(Top.base, Entry.ofs)")]),
    ("Mbr", "D01", "tlc", [("num |-> Top.num + Top.slot - 1, base", "num |-> Top.num + Top.slot, base")]),
    ("Mbr", "D01", "tlc", [("/\\ Top.slot <= 4 /\\ IsExt(Entry)", "/\\ Top.slot <= 4 /\\ Entry.t \\in {5, 15}")]),
    ("Mbr", "D01", "code", [("number |-> sum + s, lba", "number |-> sum + s + (IF n > 1 THEN 1 ELSE 0), lba"),
                            ("number |-> Top.num + Top.slot, lba", "number |-> Top.num + Top.slot + (IF Top.node > 1 THEN 1 ELSE 0), lba")]),
    ("Gpt", "D02", "tlc", [("THEN phase' = \"mbr\" /\\ seen' = TRUE", "THEN phase' = \"mbr\" /\\ seen' = FALSE")]),
    ("Gpt", "D02", "code", [("NameOf(s) == RStrip(LStrip(UpToNul(s, 1)))", "NameOf(s) == RStrip(UpToNul(s, 1))")]),
    ("Gpt", "D02", "code", [("Used(e) == ~e.nil /\\ e.first # BZero", "Used(e) == e.first # BZero")]),
    ("Apm", "D03", "tlc", [("pos' = pos + unit", "pos' = pos + cfg.ss")]),
    ("Apm", "D03", "code", [("Unit(c) == IF c.er THEN c.bs ELSE c.ss", "Unit(c) == c.ss"),
                            ("IF cfg.er THEN pos' = cfg.bs /\\ unit' = cfg.bs", "IF cfg.er THEN pos' = cfg.bs /\\ unit' = cfg.ss"),
                            ("pos' = pos + unit", "pos' = pos + (IF cfg.er THEN cfg.bs ELSE cfg.ss)")]),
    ("Bsd", "D04", "tlc", [("base' = BaseOf(Cur)", "base' = BZero")]),
    ("Bsd", "D04", "tlc", [("use == i # Raw /\\ s.fs # 0", "use == s.fs # 0")]),
    ("Bsd", "D04", "code", [("BaseOf(l) == IF l.bits = 32 /\\ Len(l.slots) >= Raw THEN l.slots[Raw].off ELSE BZero", "BaseOf(l) == BZero")]),
    ("Detect", "D05", "tlc", [('Order == <<"GPT", "MBR", "APM", "BSD">>', 'Order == <<"MBR", "GPT", "APM", "BSD">>')]),
    ("Detect", "D05", "code", [("/\\ cfg.bsdp = \"bad\" -> phase' = \"error\" /\\ UNCHANGED scheme\n               [] scheme = \"MBR\"", "/\\ cfg.bsdp = \"bad\" -> phase' = \"done\" /\\ UNCHANGED scheme\n               [] scheme = \"MBR\""),
                               ("CASE IsMbr(c) /\\ c.bsdp = \"bad\" -> \"error\"", "CASE IsMbr(c) /\\ c.bsdp = \"bad\" -> IF GptDisk(c) THEN \"error\" ELSE \"MBR\"")]),
    ("Stream", "D06", "tlc", [('[] op.o = "below" -> pos[h]', '[] op.o = "below" -> op.a'), ("Isolated == \\A h", "Isolated == pos[1] < Len_ + 5 /\\ \\A h"),
                              ("p |-> NewPos(h, op)])", 'p |-> IF op.o = "below" THEN pos[h] ELSE NewPos(h, op)])')]),
    ("Stream", "G01", "tlc", [("IF op.a = -1 THEN left ELSE Min(op.a, left)", "IF op.a = -1 THEN left ELSE op.a")]),
    ("PartType", "D07", "tlc", [("said' = Append(said, [name |-> NameOf(e), text |-> TextOf(e)])", "said' = Append(said, [name |-> NameOf(e), text |-> NameOf(e)])")]),
    ("PartType", "D07", "code", [('THEN MbrNames[e.num] ELSE "Unknown"', 'THEN MbrNames[e.num] ELSE "?"')]),
    ("Raid", "R01", "tlc", [("next == Min(SizesAbove(c, devstart))", "next == Max(SizesAbove(c, devstart))")]),
    ("Raid", "R01", "tlc", [("pick == IF c.lay = 1 \\/ Len(zs) = 1 THEN k ELSE inz", "pick == inz")]),
    ("Raid", "R01", "code", [("IF c.lay = 1 THEN ms[((base + i - 1) % nb) + 1] ELSE ms[i]", "ms[i]"),
                             ("pick == IF c.lay = 1 \\/ Len(zs) = 1 THEN k ELSE inz", "pick == inz")]),
    ("Raid", "R02", "tlc", [("[] c.lvl = 6 /\\ c.lay = 9 -> Skip2(n - 1 - ((s + 1) % n))", "[] c.lvl = 6 /\\ c.lay = 9 -> Skip2(n - 1 - (s % n))")]),
    ("Raid", "R02", "code", [("[] c.lvl # 4 /\\ c.lay = 9 -> n - 1 - ((r + 1) % n)", "[] c.lvl # 4 /\\ c.lay = 9 -> n - 1 - (r % n)"),
                             ("[] c.lvl = 6 /\\ c.lay = 9 -> Skip2(n - 1 - ((s + 1) % n))", "[] c.lvl = 6 /\\ c.lay = 9 -> Skip2(n - 1 - (s % n))")]),
    ("Raid", "R03", "tlc", [("r |-> (s \\div c.n) * (IF Offs(c) = 1 THEN Far(c) ELSE 1)]", "r |-> s \\div c.n]")]),
    ("Raid", "R03", "code", [("Raid10Chunks(c) == ((MinSz(c) \\div Far(c)) * c.n) \\div Near(c)", "Raid10Chunks(c) == ((MinSz(c) \\div Far(c)) * c.n) \\div Near(c) - 1")]),
    ("Raid", "R04", "tlc", [("ELSE LocLinear(c, k - c.sz[m + 1], m + 1)", "ELSE LocLinear(c, k - MinSz(c), m + 1)")]),
    ("Raid", "R05", "code", [("[] c.lvl \\in {4, 5} -> Cardinality(missing) > 1", "[] c.lvl \\in {4, 5} -> Cardinality(missing) > 2")]),
    ("Md", "M01", "tlc", [('Probes(size) == <<Place("0.90", size), Place("1.0", size), 0, 8>>', 'Probes(size) == <<Place("0.90", size), Place("1.0", size), 0, 16>>')]),
    ("Md", "M01", "code", [('[] ver = "1.0" -> RoundDown(size - 16, 8)', '[] ver = "1.0" -> RoundDown(size - 8, 8)')]),
    ("Md", "M02", "tlc", [("ELSE IF chosen[r] = 0 \\/ Ev(chosen[r]) < Ev(d) THEN", "ELSE IF chosen[r] = 0 THEN")]),
    ("Md", "M02", "tlc", [("IF Ev(ref) < Ev(d) THEN d ELSE ref", "IF Ev(ref) > Ev(d) THEN d ELSE ref")]),
    ("Md", "M02", "code", [("Role(d) == IF cfg.members[d].rec THEN Spare ELSE cfg.members[d].role", "Role(d) == cfg.members[d].role")]),
    ("Ddf", "F01", "code", [("[] c.prl = RAID5 /\\ c.rlq = 2 -> R(5, 0)", "[] c.prl = RAID5 /\\ c.rlq = 2 -> R(5, 2)")]),
    ("Ddf", "F01", "code", [("[lvl |-> 10, lay |-> 258, n |-> c.nsec * 2]", "[lvl |-> 10, lay |-> 513, n |-> c.nsec * 2]")]),
    ("Ddf", "F01", "tlc", [("ELSE IF \\A q \\in old : Rec(q).seq < Rec(r).seq THEN", "ELSE IF old = {} THEN")]),
    ("Ddf", "F02", "tlc", [("Cardinality(best) < Populated /\\ n <= Len(cfg.used) + cfg.spare\n             /\\ best'", "n <= Populated\n             /\\ best'"),
                           ("~(Cardinality(best) < Populated /\\ n <= Len(cfg.used) + cfg.spare)", "n > Populated")]),
    ("Ddf", "F01", "tlc", [("(IF Rec(r).nsec = 1 THEN 0 ELSE Rec(r).sec) * Rec(r).pec + i - 1", "Rec(r).sec + i - 1")]),
    ("Ddf", "F01", "tlc", [("LAMBDA e : e.ref # Gap)", "LAMBDA e : TRUE)")]),
    ("VinumCfg", "N01", "tlc", [("IF k # None \\/ ~Complete(o) THEN", "IF k # None THEN")]),
    ("VinumCfg", "N01", "tlc", [("ELSE IF tok = \"\" /\\ Piece = \"#\" THEN", "ELSE IF Piece = \"#\" THEN")]),
    ("VinumCfg", "N01", "code", [('[] c \\in {"k", "K"} -> 10', '[] c \\in {"k"} -> 10')]),
    ("VinumCfg", "N01", "code", [('Striped(v) == v \\in {"striped", "raid5"}', 'Striped(v) == v = "striped"')]),
    ("Vinum", "N02", "tlc", [("\\E e \\in old : Time(v) > Time(e.v)", "\\E e \\in old : Time(v) < Time(e.v)")]),
    ("Vinum", "N02", "tlc", [('SdOk(e) == /\\ e.o.st \\in {"up", "growable", "none"}', 'SdOk(e) == /\\ e.o.st \\in {"up", "growable"}')]),
    ("Vinum", "N02", "code", [('e.o.st \\in {"up", "initializing", "degraded",', 'e.o.st \\in {"up", "initializing",'),
                              ('/\\ p.o.st # "down" /\\', '/\\ p.o.st # "degraded" /\\ p.o.st # "down" /\\')]),
    ("Lvm", "L02", "tlc", [("a == s.areas[(c % cnt) + 1]", "a == s.areas[((c \\div cnt) % cnt) + 1]")]),
    ("Lvm", "L03", "code", [('[] s.t = "mirror" -> \\E a \\in 1 .. Len(s.areas) : CanOpen', '[] s.t = "mirror" -> \\A a \\in 1 .. Len(s.areas) : CanOpen')]),
    ("LvmArea", "L01", "tlc", [("IF out = <<>> \\/ s > out[1] THEN", "IF out = <<>> \\/ s < out[1] THEN")]),
    ("LvmArea", "L01", "tlc", [("\\o [i \\in 1 .. cfg.len - Front |-> i - 1]", "\\o [i \\in 1 .. cfg.len - Front |-> i]")]),
    ("LvmText", "L01", "tlc", [('[] l.k = "end" -> /\\ arr\' = "" /\\ UNCHANGED <<stack, sections>>', '[] l.k = "end" -> /\\ arr\' = "" /\\ stack\' = <<>> /\\ UNCHANGED <<sections>>')]),
    ("Thin", "T02", "tlc", [("IF node.keys[low] = cfg.key THEN <<node.kids[low]>> ELSE <<>>", "<<node.kids[low]>>")]),
    ("Thin", "T02", "tlc", [("ELSE IF k < cfg.key THEN low' = mid", "ELSE IF k > cfg.key THEN low' = mid")]),
    ("Thin", "T01", "code", [("IF b > Len(cfg.map) THEN Hole ELSE cfg.map[b]", "IF b > Len(cfg.map) THEN Hole ELSE cfg.map[Len(cfg.map) + 1 - b]"),
                             ("THEN cfg.map[cfg.from + i] ELSE Hole", "THEN cfg.map[Len(cfg.map) + 1 - cfg.from - i] ELSE Hole")]),
    ("Vss", "S01", "tlc", [('IF last THEN live[e.t] ELSE ReadBlock(s + 1, e.t, FALSE)', 'live[e.t]')]),
    ("Vss", "S01", "tlc", [("[] e.k = \"none\" -> IF ~last THEN ReadBlock(s + 1, b, FALSE)", "[] e.k = \"none\" -> IF ~last THEN ReadBlock(s + 1, b, TRUE)")]),
    ("Vss", "S01", "tlc", [("Newest > 0 /\\ ~Has(snaps[Newest], b) /\\ ~Sparse", "Newest > 0 /\\ ~Sparse")]),
    ("Vss", "S01", "code", [('THEN [m1 EXCEPT ![d.t].rev = TRUE] ELSE m1', 'THEN m1 ELSE m1')]),
    ("Reject", "G02", "tlc", [('ELSE IF i \\in seen THEN Stop("reject", "visited before")', "ELSE IF FALSE THEN Stop(\"reject\", \"\")"),
                              ('/\\ verdict = "run" /\\ steps\' = steps + 1', '/\\ verdict = "run" /\\ steps < 60 /\\ steps\' = steps + 1')]),
    ("Reject", "G02", "code", [("[] m.kind = \"text\" -> v # m.value", "[] m.kind = \"text\" -> TRUE")]),
    ("StreamTrace", "D06", "code", [('[] S.o = "cur" -> P + S.a', '[] S.o = "cur" -> S.a')]),
]


def run(change):
    module, prop, _, edits = change
    with tempfile.TemporaryDirectory(prefix="specmut") as scratch:
        copy = Path(scratch) / "verif"
        shutil.copytree(VERIF, copy, ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "replay"))
        path = copy / "spec" / f"{module}.tla"
        text = path.read_text()
        for old, new in edits:
            if text.count(old) != 1:
                return f"{text.count(old)} occurrences of {old!r}"
            text = text.replace(old, new)
        path.write_text(text)
        done = subprocess.run(["bash", str(copy / "check.sh"), prop, "quick"], capture_output=True, text=True, cwd=copy)
    said = done.stdout + done.stderr
    if done.returncode == 1 and "VIOLATION property=" in said:
        return "code"
    broken = re.findall(r"Invariant \w+ is violated|Deadlock reached|Assumption .* is false|Error: (?!Pars).*", said)
    if broken:
        return "tlc: " + broken[-1]
    return f"exit {done.returncode}: " + said.strip()[-300:]


def main(names):
    todo = [c for c in CHANGES if not names or c[0] in names]
    odd = 0
    with ThreadPoolExecutor(int(os.environ.get("W", "3"))) as pool:
        for change, got in zip(todo, pool.map(run, todo)):
            ok = got.split(":")[0] == change[2]
            odd += not ok
            print("    " if ok else "ODD ", change[0], change[1], "expected", change[2], "got", got, "|", change[3][-1][1][:70].replace("\n", " "), flush=True)
    print(len(todo), "changes", odd, "odd")
    return odd > 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
