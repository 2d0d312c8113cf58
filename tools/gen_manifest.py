#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TRUST = (
    " Trusted: TLC, the harness' own image encoders (independent of the code under test) and, outside the enumerated "
    "bounds, the seeded random scenarios being representative."
)
CHECKS = {
    "D01": ("Mbr.tla, Big.tla", "all 9^4 shapes of an MBR with chains of extended boot records are model checked (stack "
            "walk = declarative listing) and laid out for the real reader, plus random trees with 32-bit LBAs"),
    "D02": ("Gpt.tla, Big.tla", "all placements of protective/hybrid slots and used/unused entries of small tables are "
            "model checked and replayed, plus random tables up to 200 entries, 64-bit LBAs, names, entry sizes, table LBAs"),
    "D03": ("Apm.tla, Big.tla", "map walks for all block/sector size combinations and up to 6 entries are model checked "
            "and replayed, plus random maps with 32-bit addresses"),
    "D04": ("Bsd.tla, Big.tla", "all 32- and 64-bit labels of 4 slots over 5 slot kinds, standalone and nested, are model "
            "checked and replayed in MBR and GPT containers, plus random labels up to 20 slots; slice contents compared"),
    "D05": ("Detect.tla", "all combinations of signatures, boot sector kinds, entries and sector sizes are model checked "
            "(probing order = declarative verdict) and each is replayed"),
    "D06": ("Stream.tla, StreamTrace.tla", "all interleavings of 3 operations on 2 handles are model checked and replayed on "
            "partitions of every scheme, and long recorded histories are validated against the trace specification",
            "TLA+ model checked with TLC; histories of the model replayed on the real handles, and recorded histories of "
            "the real handles validated by TLC"),
    "D07": ("PartType.tla", "the descriptions of all type numbers and known GUIDs, of GUIDs that differ in one word and of all "
            "combinations of two schemes are model checked (distinct, independent of what else is on the disk) and replayed as "
            "disks"),
    "F01": ("Ddf.tla, Raid.tla", "slot scanning and record selection are model checked for order independence over all slot "
            "patterns and supply orders of 3 disks with 2 virtual disks, every level and qualifier is converted and replayed "
            "as real disks, plus random groups, gaps, stale records, secondary elements and starting blocks"),
    "F02": ("Ddf.tla", "reading a table with unused entries is model checked for all patterns (all used entries, nothing behind the "
            "table), and disks with three such tables, arbitrary section places and arbitrary fields are replayed"),
    "G01": ("Stream.tla, StreamTrace.tla, Raid.tla, Lvm.tla, Vss.tla, Vinum.tla", "all interleavings of 3 operations on 2 handles, with "
            "others moving the underlying handles, are model checked and replayed on every stream kind (partitions, all RAID "
            "levels, MD, DDF, Vinum, LVM, thin, shadow copies), and long recorded histories are validated against the trace "
            "specification",
            "TLA+ model checked with TLC; histories of the model replayed on the real handles, and recorded histories of "
            "the real handles validated by TLC"),
    "G02": ("Reject.tla", "readers that follow the links of an image with faults (damaged signature, cut before or inside a "
            "structure, link outside, loop, doubled link; all pairs of faults) are model checked (reject exactly when the "
            "fault is in what is needed, every structure visited at most once) and each is applied to images of all "
            "formats; all formats are given to all openers"),
    "L01": ("LvmText.tla, LvmArea.tla", "all metadata texts of 6 lines are model checked (stack reader = nesting of the whole text), "
            "as are all wrap points of small areas and all area/age combinations of up to 3 devices; all are replayed on real "
            "devices, plus random trees and groups with every kind of segment, compared field by field"),
    "L02": ("Lvm.tla", "all segments of 1..3 stripes and pairs of segments on 3 physical volumes are model checked (division "
            "formula = row/column definition, no unit used twice) and replayed, plus random groups with stripes, mirrors, "
            "pools, thin volumes and external origins"),
    "L03": ("Lvm.tla", "a group with every kind of volume is model checked for all placements, missing subsets and supply orders "
            "and replayed, plus random groups with missing volumes"),
    "M01": ("Md.tla", "superblock location for every version and every device size up to 700 sectors is model checked "
            "(probe order = defined place) and replayed, also on petabyte devices, with random field values"),
    "M02": ("Md.tla, Raid.tla", "assembly is model checked for order independence over all permutations of small mixes of "
            "data, spare, faulty, journal and stale members and replayed as real sets of every level, plus random mixes"),
    "N01": ("VinumCfg.tla", "all texts of 5 lexical pieces and all plex and subdisk lines of 4 tokens are model checked "
            "(token machine = declarative reading of the line, unambiguous) and parsed by the real code, plus random "
            "configurations of up to 7 lines"),
    "N02": ("Vinum.tla, Raid.tla", "merging of configuration versions is model checked against its declarative meaning for all "
            "states, organisations, versions, inactive and missing drives and supply orders of small farms, and replayed as real "
            "drives, plus random farms of up to 8 drives, 3 volumes, 3 plexes each and 3 versions"),
    "R01": ("Raid.tla", "all RAID0 sets with at most 4 members of at most 3 chunks in every layout are model checked "
            "(zone walk = row-major striping) and replayed on the real stream, plus random larger and terabyte sets"),
    "R02": ("Raid.tla", "all RAID4/5/6 layouts for 2..7 members over two parity rotations are model checked (closed "
            "formulas = declarative parity placement, data never on parity) and replayed, plus random and terabyte sets"),
    "R03": ("Raid.tla", "all near/far/offset/far-set layouts for up to 6 members are model checked (copies disjoint, "
            "reader picks a copy) and replayed, plus random and terabyte sets"),
    "R04": ("Raid.tla", "all linear sets and mirrors of at most 4 members are model checked and replayed with shuffled "
            "supply order and data offsets, plus random and terabyte sets"),
    "R05": ("Raid.tla", "every subset of missing members (fault action) of all enumerated levels and layouts is model "
            "checked and each outcome replayed chunk by chunk"),
    "S01": ("Vss.tla", "all histories of up to 6 snapshots, writes, frees, moves and amendments over 2-3 blocks are model checked "
            "(descriptor lookups = contents when the snapshot was taken) and replayed on volumes with scattered, chained and "
            "shuffled structures, plus random histories with up to 6 snapshots"),
    "T01": ("Thin.tla", "all mappings of 4 blocks over 3 data blocks and holes with all read windows are model checked and "
            "replayed on real pools with random tree shapes, block sizes, sizes and several devices, plus random mappings"),
    "T02": ("Thin.tla", "B-trees of all shapes up to depth 3 over all subsets of 6 keys are model checked (binary search descent "
            "= stored entries), written as real trees with scaled keys and looked up with every key, and combined to pools"),
}
TECH = {
    "default": "TLA+ model checked with TLC; behaviours of the model replayed on the real code",
}

props = [json.loads(line)["id"] for line in (ROOT / "properties.jsonl").read_text().splitlines()]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Specification language: TLA+ (spec/*.tla), checked with TLC. check.sh <id> <tier> decides one property; "
    "check.sh <id> <tier> --replay <file> replays recorded violations.",
}
for p in props:
    if p in CHECKS:
        mod, note = CHECKS[p][:2]
        m["checks"].append(
            {
                "property": p,
                "quick_cmd": f"bash check.sh {p} quick",
                "thorough_cmd": f"bash check.sh {p} thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": (CHECKS[p][2] if len(CHECKS[p]) > 2 else TECH["default"]) + f" ({mod})",
                "level": "model_checking",
                "level_note": note + "." + TRUST,
            }
        )
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
