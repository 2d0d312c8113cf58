#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line). Run by hand when the list changes."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": [observe],
            },
        }
    )


D = "dissect/volume/disk/schemes/"
prop(
    "D01",
    "MBR tables and extended chains list exactly the partitions that were laid out",
    "For every MBR, including chains of extended boot records, opening the disk yields one partition per non-empty "
    "primary slot and per logical drive, in table order and then chain order, each with the exact number, type, "
    "on-disk offset, size and flags that the table describes (primaries are numbered by slot, logical drives count on "
    "from their container's slot). Container (extended) entries are not partitions, "
    "several top-level containers are each relative to the start of the disk, and nested links are relative to the "
    "outermost container. All offsets are relative to the position of the handle at which the disk was opened.",
    ["inputs", "configurations"],
    "all placements of primary, extended and logical entries, LBAs up to 2^32-1, 512 and 4096 byte sectors",
    "The existing MBR images are a handful of real disks (not even present offline); chain shapes, several containers, "
    "empty links and 32-bit LBAs are never enumerated.",
    [D + "mbr.py", "dissect/volume/disk/disk.py"],
    [("MBR._partitions / _partitions_from", D + "mbr.py"), ("Disk.partitions", "dissect/volume/disk/disk.py")],
    "Disk(fh).partitions: number, offset, size, type, flags",
)
prop(
    "D02",
    "GPT tables list exactly the used entries, wherever the table and entries lie",
    "For every GUID partition table, each entry with a non-nil type becomes one partition with its entry-index based "
    "number, byte offset, type GUID, unique GUID, decoded name and attribute flags, honouring the header's entry "
    "count, entry size and table LBA and the sector size; nil entries produce nothing. On a hybrid disk the MBR "
    "entries are listed too, with all GPT entries in the place of the (first) protective entry. All places are relative to the position of the "
    "handle at which the disk was opened.",
    ["inputs", "configurations"],
    "all entry counts, entry sizes, table LBAs, sector sizes, gaps between used entries, names and 64-bit LBAs",
    "Tests hold a few fixed disk images; entry sizes other than 128, relocated tables, gaps, names and hybrid layouts "
    "in combination are infinite.",
    [D + "gpt.py", "dissect/volume/disk/disk.py"],
    [("GPT._partitions", D + "gpt.py"), ("Disk.__init__", "dissect/volume/disk/disk.py")],
    "Disk(fh).partitions: number, offset, size, type, guid, name, flags",
)
prop(
    "D03",
    "APM maps list exactly the entries of the map",
    "For every Apple partition map, opening the disk yields one partition per map entry, numbered in map order, with "
    "the byte offset, size, type string and name recorded in that entry, for whatever block size the driver "
    "descriptor declares, relative to the position of the handle at which the disk was opened.",
    ["inputs", "configurations"],
    "all map entry counts, 32-bit block addresses and counts, block sizes, names and types",
    "A single real APM image exists; entry counts, block sizes and big addresses are not varied.",
    [D + "apm.py"],
    [("APM._partitions", D + "apm.py")],
    "Disk(fh).partitions: number, offset, size, type, name, raw",
)
prop(
    "D04",
    "BSD disklabels list exactly the used slices, standalone and nested",
    "For every BSD disklabel (32-bit and 64-bit form), standalone or inside a partition of another scheme, the "
    "non-empty slices other than the raw-disk slice are listed with number, offset relative to the label's base, size "
    "and type, and a partition containing a disklabel is replaced in place by its slices. Reading a slice returns the "
    "bytes of that slice on the whole disk.",
    ["inputs", "configurations"],
    "all slice tables (count, empty slots, offsets), label versions, placement standalone or in an MBR/GPT partition",
    "Tests have one image per label version; slice tables, slot counts and nesting are not enumerated.",
    [D + "bsd.py", "dissect/volume/disk/disk.py"],
    [("BSD._partitions_32/_partitions_64", D + "bsd.py"), ("Disk.__init__ nesting", "dissect/volume/disk/disk.py")],
    "Disk(fh).partitions and Partition.open()",
)
prop(
    "D05",
    "Scheme detection picks the right scheme or reports a disk error",
    "For every disk content the scheme is decided with the fixed priority GPT, MBR, APM, standalone BSD, on the "
    "signatures actually present; file system boot sectors are not MBRs, and a disk with no scheme, or a protective "
    "MBR without a GPT at the chosen sector size, is rejected with a disk error. The volume serial is the "
    "MBR one exactly when the scheme is MBR and absent otherwise.",
    ["inputs", "configurations"],
    "all combinations of present/absent signatures of the schemes, boot sector kinds and sector sizes",
    "Only four single-signature images exist in tests; combinations of signatures and sector sizes are not tried.",
    ["dissect/volume/disk/disk.py", D + "gpt.py", D + "mbr.py", D + "apm.py", D + "bsd.py"],
    [("Disk.__init__ scheme loop", "dissect/volume/disk/disk.py"), ("Disk.serial", "dissect/volume/disk/disk.py")],
    "type of Disk(fh).scheme, Disk.serial, or the raised exception",
)
prop(
    "D06",
    "A partition handle exposes exactly the partition's bytes",
    "For every partition of every scheme, the opened handle returns byte k of the partition for exactly the byte at "
    "partition offset plus k of the disk, for every seek/read history, and ends at the partition's size. Handles of "
    "different partitions, and several handles of one partition, never disturb each other's contents.",
    ["histories", "configurations"],
    "all interleavings of seek/read on any number of handles of any partitions",
    "Tests open a partition at most once and read a prefix; histories and interleavings are unbounded.",
    ["dissect/volume/disk/partition.py"],
    [("Partition.open", "dissect/volume/disk/partition.py")],
    "bytes and positions returned by Partition.open()",
)
prop(
    "D07",
    "Partitions describe their type by its id and its name in their own scheme",
    "For every listed partition, type_name is the name its own scheme gives to its type and type_str describes it: "
    "for MBR partitions (primary or logical) '0x<hex id> (<name>)' and for GPT partitions '<guid> (<name>)', with "
    "'Unknown' for ids and GUIDs that are not known, for slices of a BSD disklabel the name of the filesystem type, or "
    "'?', and for entries of an Apple partition map their type text. Numbers of one scheme are never described with the "
    "names of another one, also when several schemes are on one disk.",
    ["inputs", "configurations"],
    "all type numbers, all known GUIDs and those that differ in one word, all combinations of schemes on a disk",
    "Tests look at two GPT partitions; the meaning of a number depends on the scheme it is found in.",
    ["dissect/volume/disk/partition.py", D + "bsd.py"],
    [("translate_partition_type", "dissect/volume/disk/partition.py"), ("FS_NAMES", D + "bsd.py")],
    "Partition.type_str and Partition.type_name",
)
RS = "dissect/volume/raid/stream.py"
prop(
    "R01",
    "RAID0 reads return the striped data for equal and unequal member sizes",
    "For every RAID0 set (any number of members, chunk size, member sizes and member data offsets), byte k of the "
    "volume is the byte the striping layout puts there, where members that are larger than others keep being striped "
    "over the remaining members. Every read of every offset and length returns exactly those bytes and never bytes "
    "outside a member's data area.",
    ["inputs", "configurations", "histories"],
    "all member counts, sizes, chunk sizes, data offsets, both multi-zone layouts, all read windows",
    "One three-disk image with two zones exists and only its first 2 MiB are read.",
    [RS],
    [("RAID0Stream zones and _read", RS)],
    "bytes read from VirtualDisk.open()",
)
prop(
    "R02",
    "RAID4/5/6 reads return the data strips of every parity layout",
    "For every RAID4, RAID5 and RAID6 set and every supported parity rotation layout, byte k of the volume is the "
    "byte of the data strip the layout assigns to it, never a parity strip and never shifted, for every read offset "
    "and length. An unsupported layout is reported as an error instead of being read.",
    ["inputs", "configurations", "histories"],
    "all levels, layouts, member counts, chunk sizes, member offsets, read windows",
    "Tests hold one image per level/layout at a single geometry and compare one read.",
    [RS],
    [("RAID456Stream._get_stripe_read_info / _read", RS)],
    "bytes read from VirtualDisk.open()",
)
prop(
    "R03",
    "RAID10 reads return the data for every near/far/offset layout",
    "For every RAID10 set and every near, far and offset copy layout, byte k of the volume is the byte of a copy of "
    "the chunk the layout assigns to it, for every read offset and length. An invalid layout is an error.",
    ["inputs", "configurations", "histories"],
    "all member counts, near/far copy counts, offset flag, far-set variants, chunk sizes, read windows",
    "Tests hold a few geometries; odd member counts and copy combinations are not enumerated.",
    [RS],
    [("RAID10Stream", RS)],
    "bytes read from VirtualDisk.open()",
)
prop(
    "R04",
    "Linear sets concatenate members in role order, mirrors return member data",
    "For every linear set the volume is the concatenation of the members' data areas in role order, regardless of the "
    "order in which they are supplied. For every mirror the volume is the data area of an available member, honouring "
    "its data offset.",
    ["inputs", "configurations", "histories"],
    "all member counts, sizes, data offsets, supply orders, subsets of mirrors, read windows",
    "One linear and one mirror image exist; sizes, order and subsets are not varied.",
    [RS, "dissect/volume/raid/raid.py"],
    [("LinearStream", RS), ("VirtualDisk.open", "dissect/volume/raid/raid.py")],
    "bytes read from VirtualDisk.open()",
)
prop(
    "R05",
    "With members missing, RAID reads give correct data or an error",
    "For every subset of members of every RAID level, opening or reading either raises an error or returns exactly "
    "the bytes the complete set would return; a set that cannot lose a member refuses to open without it. Surviving "
    "mirrors keep being fully readable, as do all chunks of a parity set within its redundancy whose data strip is present.",
    ["fault_sequences", "configurations"],
    "every subset of missing members for every level, layout and read position",
    "No test removes a member except one mirror case; subsets times layouts times positions is exponential.",
    [RS, "dissect/volume/raid/raid.py"],
    [("member-count guards and disk_map lookups", RS)],
    "bytes or exception from VirtualDisk.open() and read()",
)
M = "dissect/volume/md/md.py"
prop(
    "M01",
    "MD members are recognised and described exactly as their superblock says",
    "For every Linux MD member device with 0.90, 1.0, 1.1 or 1.2 metadata, of every device size, the superblock is "
    "found at its defined place and set UUID, name, level, layout, chunk size, member count, role, event count, "
    "times, data offset and data size are reported exactly; spares, faulty members, members that are "
    "still being recovered and journals have no data role. A "
    "device without a superblock is rejected.",
    ["inputs", "configurations"],
    "all superblock versions, device sizes and alignments, 64-bit counters, roles",
    "Tests have a fixed image per version; device size residues, counters and special roles are not covered.",
    [M, "dissect/volume/md/c_md.py"],
    [("find_super_block", M), ("MDPhysicalDisk.__init__", M)],
    "attributes of MDPhysicalDisk / MD(...).configurations",
)
prop(
    "M02",
    "MD assembly is order independent, groups by set and reads back what was written",
    "For every collection of member devices of any number of MD sets, in any supply order, there is one configuration "
    "per set UUID whose level, geometry, name and size come from the member with the newest event count and whose "
    "volume reads back the data that was written to the array. Spares, faulty members, members that are "
    "still being recovered and journals never supply data or change the contents; outdated members only where no newer "
    "one has their role.",
    ["configurations", "inputs", "histories"],
    "all permutations and mixes of sets, levels, event counts, spare/journal members",
    "Tests pass one complete set in one order; permutations, mixes and stale or spare members are not covered.",
    [M],
    [("MD.__init__ grouping", M), ("MDConfiguration", M), ("MDVirtualDisk", M)],
    "MD(fhs).configurations[*].virtual_disks[*]: attributes and bytes",
)
DD = "dissect/volume/ddf/ddf.py"
prop(
    "F01",
    "DDF assembly exposes every virtual disk with its layout, size, name and data",
    "For every set of disks with DDF metadata, in any supply order, each virtual disk defined by the newest "
    "configuration record is exposed once with its name, GUID, size, strip size and RAID layout, and reading it "
    "returns the data written to its members at their starting blocks. Foreign or unused configuration slots do not "
    "hide other virtual disks, a disk without a DDF anchor is rejected, and a combination of levels that is not supported "
    "is an error, never read as another layout.",
    ["configurations", "inputs"],
    "all RAID levels and qualifiers, starting blocks, block sizes, slot patterns, sequence numbers, supply orders",
    "Tests contain a few mdadm-made images with starting block 0, one configuration record and one order.",
    [DD, "dissect/volume/ddf/c_ddf.py"],
    [("DDFConfiguration", DD), ("DDFVirtualDisk", DD), ("_convert_raid_layout", DD), ("DDFPhysicalDisk", DD)],
    "DDF(fhs).configurations[*].virtual_disks[*]: attributes and bytes",
)
prop(
    "F02",
    "DDF records are described exactly as stored",
    "For every disk with DDF metadata, wherever its sections lie, the described disk (GUID, reference, type, state, path, "
    "block size, size), its controller, and the lists of physical disk, virtual disk and configuration records contain "
    "exactly the used entries of the tables, in their order, with every field as stored: numbers and texts unchanged and "
    "times (also those inside GUIDs) counted from 1980-01-01 UTC in big-endian byte order. A virtual disk refers to the records that define it.",
    ["configurations", "inputs"],
    "all patterns of used and unused table entries, section places, record lengths, sector sizes, field values",
    "Tests read the attributes of two mdadm-made images, whose tables have no gaps and whose fields are mostly defaults.",
    [DD, "dissect/volume/ddf/c_ddf.py"],
    [("DDFPhysicalDisk", DD), ("VirtualDiskConfigurationRecord", DD), ("VirtualDiskRecord", DD), ("PhysicalDiskRecord", DD)],
    "attributes of DDFPhysicalDisk(fh) and of its records",
)
V = "dissect/volume/vinum/"
prop(
    "N01",
    "Vinum configuration text is parsed to exactly the objects it declares",
    "For every configuration text (lines separated by newlines or NUL bytes; blank lines and comments skipped), each "
    "well-formed volume, plex and subdisk line yields exactly one object with exactly the declared attributes (names, "
    "state, organisation and stripe size, sizes and offsets with unit suffixes), regardless of attribute order and "
    "spacing; the last value of a repeated attribute wins, unknown states and organisations become DOWN and DISORG. As in the "
    "FreeBSD kernel, the first malformed line (unknown type or attribute, missing value, name or drive, invalid size or "
    "offset, quoted token) ends the configuration: it and later lines yield nothing, earlier lines are unaffected.",
    ["inputs", "programs"],
    "all token sequences of the configuration grammar including malformed ones",
    "The parser tests sample some dozens of lines; the grammar is infinite, in particular combinations of attributes, "
    "spacing and errors.",
    [V + "config.py"],
    [("parse_vinum_config and helpers", V + "config.py")],
    "VinumConfigs returned by the parser",
)
prop(
    "N02",
    "Vinum assembly follows the newest configuration and maps subdisks to drives",
    "For every collection of drives, in any supply order, the volumes are those of the newest configuration of each "
    "object, unusable objects (down, stale, orphaned, on inactive drives) are excluded, and reading a volume returns the bytes at each "
    "subdisk's drive offset arranged by the plex organisation. A volume with a complete plex is readable; otherwise "
    "missing drives lead to an error or correct data, never to other bytes. Each drive is described by the name, activity, "
    "size and configuration time of its label.",
    ["configurations", "inputs"],
    "all volume/plex/subdisk graphs, organisations, drive offsets, configuration timestamps, supply orders",
    "Tests hold one image per organisation with default drive offsets and one order.",
    [V + "vinum.py"],
    [("VinumConfiguration / get_*_configs", V + "vinum.py"), ("VinumPlexDisk / VinumMirrorDisk", V + "vinum.py")],
    "Vinum(fhs).configurations[*].virtual_disks[*]: attributes and bytes",
)
L = "dissect/volume/lvm/"
prop(
    "L01",
    "LVM2 metadata is located and parsed to exactly the described volume group",
    "For every physical volume, the label is found in any of the first four sectors and the volume group metadata "
    "text (which may wrap around its circular area) is parsed to exactly the described values: nested sections, "
    "integers, strings, lists and comments, in any key order, also for groups without logical volumes and with any "
    "segment type. Of several metadata areas and physical volumes, some of which may have none or a damaged one, the newest metadata "
    "(highest sequence number) describes the group.",
    ["inputs", "configurations"],
    "all label sectors, metadata area offsets and wrap points, texts of the metadata grammar, sequence numbers",
    "Tests hold a few images written by lvcreate with un-wrapped text; wrap points and grammar are not enumerated.",
    [L + "physical.py", L + "metadata.py", L + "lvm2.py"],
    [("LVM2Device", L + "physical.py"), ("parse_metadata", L + "metadata.py"), ("LVM2", L + "lvm2.py")],
    "LVM2(...).volume_group and metadata dictionaries",
)
prop(
    "L02",
    "LVM2 logical volumes read back the data their segments map",
    "For every logical volume built from linear, striped, mirror and thin segments, in any segment order and spread "
    "over any physical volumes, each byte read is the byte at the mapped extent (pe_start, extent size, interleaved "
    "stripes of the stripe size) of the right physical volume, and the size is the sum of its segments. Unmapped "
    "blocks of a thin volume read as zeros or, if it has an external origin, as that volume. Sectors read directly from "
    "a physical volume are those of its data area.",
    ["inputs", "configurations", "histories"],
    "all segment lists, extent sizes, stripe counts and sizes, physical volume placements, read windows",
    "Tests hold a few images with one or two segments; stripes, several PVs and segment orders are not enumerated.",
    [L + "metadata.py"],
    [("Segment / StripedSegment / MirrorSegment / ThinSegment", L + "metadata.py"), ("LogicalVolume.open", L + "metadata.py")],
    "bytes read from LogicalVolume.open()",
)
prop(
    "L03",
    "LVM2 opening is order independent; missing volumes never give wrong data",
    "For every supply order of the physical volumes the same logical volumes and contents result. When physical "
    "volumes are missing, a logical volume that does not need them is read correctly, a mirror is read from a "
    "surviving leg, and any other logical volume raises an error naming the missing one.",
    ["fault_sequences", "configurations"],
    "all permutations and subsets of physical volumes for all logical volume kinds",
    "Tests have a single missing-device case; subsets and permutations are not explored.",
    [L + "lvm2.py", L + "metadata.py"],
    [("LVM2 device matching", L + "lvm2.py"), ("PhysicalVolume / MirrorSegment", L + "metadata.py")],
    "LVM2(...) and LogicalVolume.open() results or exceptions",
)
prop(
    "T01",
    "Thin volumes read mapped blocks from the data device and zeros elsewhere",
    "For every thin pool and every thin device, each byte read is the byte of the data block the pool maps it to, or "
    "zero when the block is unmapped (if an external origin was given: the byte of the origin at the same place, as far as "
    "it goes), for every read offset and length, up to the requested size.",
    ["inputs", "configurations", "histories"],
    "all block mappings (holes first, middle, last; out-of-order blocks), block sizes, device sizes, read windows",
    "One pool image exists; hole patterns and read windows are not enumerated.",
    ["dissect/volume/dm/thin.py"],
    [("ThinDevice._read", "dissect/volume/dm/thin.py"), ("ThinPool.open", "dissect/volume/dm/thin.py")],
    "bytes read from ThinPool.open(id, size)",
)
prop(
    "T02",
    "Thin metadata trees of every shape resolve to the right stored mapping",
    "For every two-level mapping tree, of any depth and fan-out, looking up any block of any device finds exactly the "
    "stored mapping, including keys below, between and above the stored ones, and the details of a device are those "
    "stored for it; devices never see each other's "
    "mappings, an unknown device identifier or invalid metadata is reported as an error, and the position of the supplied "
    "handles does not matter.",
    ["inputs", "configurations"],
    "all tree shapes (leaf and internal levels, key gaps), device identifiers and lookups",
    "The single test pool has one tree shape with few keys.",
    ["dissect/volume/dm/btree.py", "dissect/volume/dm/thin.py"],
    [("BTree.lookup", "dissect/volume/dm/btree.py"), ("ThinPool", "dissect/volume/dm/thin.py")],
    "BTree lookups and ThinPool.open()",
)
prop(
    "S01",
    "Shadow copies show the volume as it was when the snapshot was taken",
    "For every volume with snapshots and every history of block writes after each snapshot, the opened snapshot "
    "returns each block as recorded by the stored copies (full blocks, partial overlays and forwarded blocks), "
    "falling through newer snapshots to the live volume for blocks that were never copied. Snapshots are listed in "
    "order of creation with their identifiers, sizes and times whatever the order of the catalog entries, and reading never "
    "depends on other handles.",
    ["histories", "inputs"],
    "all histories of copy-on-write descriptors over several snapshots, overlays, forwarders, bitmaps, read windows",
    "There is a single (large, unavailable) image test; descriptor combinations across snapshots are unbounded.",
    ["dissect/volume/vss.py"],
    [("VSS catalog and stores", "dissect/volume/vss.py"), ("Store lookups and the stream of a store", "dissect/volume/vss.py")],
    "VSS(fh).catalog.stores and bytes read from open()",
)
prop(
    "G01",
    "Every volume stream behaves as a random-access file for every operation history",
    "For every volume kind and every history of seek, read and tell operations (all whence modes, reads of any "
    "length, past the end, zero length, to the end), results and positions equal those of a plain file with the same "
    "content, and interleaved use of several handles on the same volume or members changes nothing.",
    ["histories"],
    "all operation histories up to the explored length over all stream kinds and handle interleavings",
    "Tests read sequentially from fresh handles; histories are unbounded.",
    [RS, "dissect/volume/dm/thin.py", L + "metadata.py", "dissect/volume/vss.py", "dissect/volume/disk/partition.py"],
    [("AlignedStream subclasses' _read", RS)],
    "return values of read/seek/tell",
)
prop(
    "G02",
    "Foreign, truncated or corrupted input is rejected with an error and never hangs",
    "Each opener accepts exactly the signatures of its format: boot signature 0xAA55 that is not a filesystem or QNX "
    "boot sector for MBR, 'EFI PART' for GPT, 'PM' for APM, both magics for BSD labels, 0xa92b4efc with major version "
    "0 or 1 for MD, header and section signatures for DDF, the header and config magics for Vinum, 'LABELONE' and the "
    "metadata area magic for LVM2, the superblock magic for thin pools, identifier and record types for shadow copies. "
    "If such a signature is absent or damaged, if a structure describes something that does not exist or is not supported (MD levels, catalog entry types, a DDF disk without a record, no or several data areas or volume groups in LVM2), if the input ends before or inside a mandatory structure, if a link to "
    "one leads outside the input, or if links form a loop (extended boot records, B-tree nodes, shadow copy blocks, "
    "mirrors of mirrors), opening or reading ends with an exception in time bounded by the size of the input, and no "
    "volume is returned. Damage to structures that are not needed makes no difference, and input of another format is "
    "rejected.",
    ["inputs", "fault_sequences"],
    "all faults (damaged signature, cut before or inside, link outside, loop) at all structures of valid images, in "
    "pairs, and all formats given to all openers",
    "Tests try an empty or zeroed buffer for some formats; corruption and truncation points are not enumerated.",
    ["dissect/volume/md/md.py", DD, V + "vinum.py", L + "physical.py", L + "metadata.py", "dissect/volume/dm/thin.py", "dissect/volume/dm/btree.py", "dissect/volume/vss.py", "dissect/volume/disk/disk.py", "dissect/volume/disk/schemes/mbr.py", "dissect/volume/disk/schemes/gpt.py"],
    [("signature checks of all openers", "dissect/volume"), ("BTree.lookup", "dissect/volume/dm/btree.py"), ("read_block", "dissect/volume/vss.py"), ("MBR._partitions", "dissect/volume/disk/schemes/mbr.py")],
    "exception or object of each opener",
)
path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
