From f4a98c3ee001e344fb20c94fa37ad811db340ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 01/66] fix: read only the remainder of the current strip in
 RAID4/5/6 and RAID10 sets

A read that spans several strips asked every member for the full remaining
length, so the bytes following a strip on that member were returned as well.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 324c5380b29fc8835ecfd29372d09e7c5b8d4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 02/66] fix: compare rounded member sizes when counting RAID0
 strip zones

Equally sized members that are not a multiple of the chunk size were counted
as different sizes, which made opening the set fail with a KeyError.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..2c4eda3 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From 624e78246bfb3c101bdfa904b673830277628991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 03/66] fix: locate data in the higher strip zones of RAID0
 sets with unequal members

The devices of a zone were looked up by role instead of by position in the
zone, and the offset at which the zone starts on its devices was ignored.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2c4eda3..b4ba307 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -165,8 +165,8 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From c2725e3447e93115f7ac8b0f1fb9472224c704c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 04/66] fix: honour the original multi-zone layout of RAID0
 sets

Layout 1 picks the device of a chunk by its number in the volume, not by its
number in the strip zone.
---
 dissect/volume/raid/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index b4ba307..1bbba2b 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -159,7 +159,8 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            # The original multi-zone layout (1) selects the device using the offset in the volume
+            if self.virtual_disk.layout == 1 or len(self.zones) == 1 or len(self.zones[1].devices) == 1:
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From 8f0bfe3f71b51ba90dda59cc6b5156db7a9c8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 05/66] fix: honour the data offset of RAID1 members

The volume of a mirror whose data does not start at the beginning of the
member was read from the start of the member.
---
 dissect/volume/raid/raid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..05d4d55 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,8 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
-            return disk.open()
+            _, (data_offset, disk) = next(iter(self.disk_map.items()))
+            fh = disk.open()
+            return RangeStream(fh, data_offset, self.size) if data_offset else fh
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
         if self.level == Level.RAID10:
-- 
2.43.0


From 26f89c208d32036d257deae4c93132bb3eab9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:54 +0000
Subject: [PATCH 06/66] fix: read every top-level extended partition relative
 to the disk

The first extended entry set the base for chained EBRs in the loop's own
variable, so a second extended entry in the MBR was located relative to the
first one.
---
 dissect/volume/disk/schemes/mbr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..c358a71 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -66,15 +66,13 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                if ebr_offset:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
 
                 continue
 
-- 
2.43.0


From e811da6f41d6b0591b0e4df6e23b23354e650631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:56 +0000
Subject: [PATCH 07/66] fix: skip GPT entries with a nil type GUID

The type GUID defines whether an entry is used; a deleted entry whose LBAs were
left behind was listed as a partition.
---
 dissect/volume/disk/schemes/gpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index b149e1c..bc0a02c 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -94,7 +94,7 @@ class GPT:
                     self.fh.seek(base_offset + (part_num * self.gpt.partition_entry_size))
 
                     partition = c_gpt.GPT_PARTITION(self.fh)
-                    if partition.first_lba == 0:
+                    if partition.first_lba == 0 or partition.type_guid == b"\x00" * 16:
                         continue
 
                     name = (
-- 
2.43.0


From fc0cf03b075a2324fba99cf74b805a81536856e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:58 +0000
Subject: [PATCH 08/66] fix: honour the block size of the APM driver descriptor

Map entries are one block apart and their addresses count blocks of the size
the driver descriptor declares, not sectors of 512 bytes.
---
 dissect/volume/disk/schemes/apm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 4645580..344418f 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -46,20 +46,21 @@ class APM:
         self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature == b"ER":
-            # We parsed the boot jump, the offset is conveniently in reserved_1 field
-            fh.seek(self.apm.reserved_1)
+            # We parsed the boot jump, the block size is conveniently in reserved_1 field
+            self.sector_size = self.apm.reserved_1
+            fh.seek(self.sector_size)
             self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature != b"PM":
             raise DiskError(f"Invalid APM signature, expected 'PM', got {self.apm.signature!r}.")
 
-        self._partitions_offset = fh.tell()
+        self._partitions_offset = fh.tell() - len(self.apm)
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-        self.fh.seek(self._partitions_offset)
         for i in range(self.apm.partition_count):
-            p = self.apm if i == 0 else c_apm.partition_entry(self.fh)
+            self.fh.seek(self._partitions_offset + i * self.sector_size)
+            p = c_apm.partition_entry(self.fh)
 
             yield Partition(
                 disk=self,
-- 
2.43.0


From 59b01fddb7a5ac6565c1332dabfacd7825f77524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:00 +0000
Subject: [PATCH 09/66] fix: do not look for disklabels inside BSD slices

The file system type of a slice was compared with partition types, so a slice
with for example type 0xa5 was replaced by a second copy of the label.
---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..5b198ef 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -38,7 +38,7 @@ class Disk:
         main_scheme = self.scheme
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
-            if partition.type in BSD.TYPES:
+            if not isinstance(main_scheme, BSD) and partition.type in BSD.TYPES:
                 self.scheme = BSD(partition.open(), sector_size=self.sector_size)
                 self.partitions.extend(self.scheme.partitions)
             else:
-- 
2.43.0


From f3ca8a0b3deb8fef2ea1b37370ae22caf93468b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:44 +0000
Subject: [PATCH 10/66] fix: Read the update time of MD superblocks from utime

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From 071a8acced085804123a65877f08f71671c78bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:46 +0000
Subject: [PATCH 11/66] fix: Align the location of MD 1.0 superblocks to 4 KiB

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..f363d06 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From cfc6cbd5c1f407be26eaadd719fbda3d1736c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:48 +0000
Subject: [PATCH 12/66] fix: Read the level of MD 0.90 superblocks as a signed
 value

---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From 4648c9b421fa8ee7c18086958d2c6a9142b46f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:50 +0000
Subject: [PATCH 13/66] fix: Do not give MD journal devices a data role

A journal holds no data of the array, but was mapped to data role 0.
---
 dissect/volume/md/md.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f363d06..4b69fb5 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -112,9 +112,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
             role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
+            if role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
                 self.raid_disk = None
-- 
2.43.0


From 0d7ca66a40d92f1a396664d3f54e54654c02a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:52 +0000
Subject: [PATCH 14/66] fix: Treat MD devices outside the role table as spares

---
 dissect/volume/md/md.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 4b69fb5..e4023d0 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -111,7 +111,9 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
-            role = self.sb.dev_roles[self.sb.dev_number]
+            role = c_md.MD_DISK_ROLE_SPARE
+            if self.sb.dev_number < self.sb.max_dev:
+                role = self.sb.dev_roles[self.sb.dev_number]
             if role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
-- 
2.43.0


From be10a047f9625f6e1260cb3b8c771371a94cb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:54 +0000
Subject: [PATCH 15/66] fix: Only give in-sync MD 0.90 devices a data role

Spare and faulty devices have a raid_disk number that is not a data role.
---
 dissect/volume/md/md.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index e4023d0..46f463d 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -129,7 +129,13 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            # Spare and faulty devices don't have a meaningful role
+            disk = self.sb.disks[self.dev_number]
+            if disk.state & (1 << c_md.MD_DISK_SYNC) and not disk.state & (1 << c_md.MD_DISK_FAULTY):
+                self.raid_disk = disk.raid_disk
+            else:
+                self.raid_disk = None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From 244d975967e06bda86288aea060dc85022d2618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:56 +0000
Subject: [PATCH 16/66] fix: Sort MD devices without a data role after the
 other devices

Comparing None with a role raises a TypeError.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 46f463d..389f553 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,7 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From 463b9e34185eedce2dfbad88a30a4b48f70d77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:58 +0000
Subject: [PATCH 17/66] fix: Prefer the most recent MD device of each role

An outdated member that returns after it has been replaced has the same role
as its replacement. The members of a mirror may also be out of date.
---
 dissect/volume/md/md.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 389f553..f390542 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -49,8 +49,14 @@ class MDConfiguration(Configuration):
 
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
-        disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
+        recent_disks = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)
+        reference_disk = recent_disks[0]
+
+        # Most recent first, an outdated disk can have the same role as the disk that replaced it
+        disk_map = {}
+        for disk in recent_disks:
+            if disk.raid_disk is not None:
+                disk_map.setdefault(disk.raid_disk, (0, disk))
 
         if reference_disk.level == Level.LINEAR:
             size = sum(disk.size for _, disk in disk_map.values())
-- 
2.43.0


From 67a1d98d0436caa2c131370de3dbf270a8718ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:00 +0000
Subject: [PATCH 18/66] fix: Round MD RAID0 members down to a whole number of
 chunks

The chunk size of a RAID0 does not have to be a power of two.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f390542..d25eb35 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -63,7 +63,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += disk.size - disk.size % reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From a7d4314f5819a95e3f60d10d823002a674bb6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:02 +0000
Subject: [PATCH 19/66] fix: Round MD linear members down to a whole number of
 chunks

Like the linear_conf function of the Linux kernel.
---
 dissect/volume/md/md.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index d25eb35..5b355e9 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -59,6 +59,9 @@ class MDVirtualDisk(VirtualDisk):
                 disk_map.setdefault(disk.raid_disk, (0, disk))
 
         if reference_disk.level == Level.LINEAR:
+            if reference_disk.chunk_size:
+                for _, disk in disk_map.values():
+                    disk.size -= disk.size % reference_disk.chunk_size
             size = sum(disk.size for _, disk in disk_map.values())
         elif reference_disk.level == Level.RAID0:
             size = 0
-- 
2.43.0


From fd57f7c832444932e5964c35c381c6127b5131c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:55 +0000
Subject: [PATCH 20/66] fix: Skip DDF configuration slots that hold no virtual
 disk

The offset was not advanced, so one unused, spare or vendor unique record hid
all records that follow it.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..3386256 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -293,12 +293,12 @@ def _read_virtual_disk_configuration_records(
     for _ in range(count):
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
+        offset += size
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 7c0f56b5e8674dc07cd6d884bf914735eb3a8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:57 +0000
Subject: [PATCH 21/66] fix: Use the unicode flag of DDF virtual disks to
 decode their name

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3386256..8c5dc28 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8") if self.type & c_ddf.DDF_VDE_UNICODE_NAME else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From faad8e622806fe89f40c187857bd045c429b175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:59 +0000
Subject: [PATCH 22/66] fix: Skip unused entries in the DDF disk tables

Entries of removed disks are filled with 0xFF and do not have to be at the end
of the table.
---
 dissect/volume/ddf/ddf.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 8c5dc28..febf6df 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -21,6 +21,7 @@ if TYPE_CHECKING:
     )
 
 DEFAULT_SECTOR_SIZE = 512
+DISK_ENTRY_SIZE = 64
 
 DECADE = 3600 * 24 * (365 * 10 + 2)
 
@@ -277,13 +278,29 @@ def _read_section_header(
 def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Physical_Disk_Records, c_ddf.DDF_PDR_SIGNATURE)
-    return [PhysicalDiskRecord(fh) for _ in range(header.Populated_PDEs)]
+    return _read_entries(fh, PhysicalDiskRecord, header.Populated_PDEs, header.Max_PDE_Supported)
 
 
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+    return _read_entries(fh, VirtualDiskRecord, header.Populated_VDEs, header.Max_VDE_Supported)
+
+
+def _read_entries(
+    fh: BinaryIO, record: type[PhysicalDiskRecord | VirtualDiskRecord], populated: int, maximum: int
+) -> list[PhysicalDiskRecord | VirtualDiskRecord]:
+    result = []
+    for _ in range(max(populated, maximum)):
+        if len(result) == populated:
+            break
+
+        buf = fh.read(DISK_ENTRY_SIZE)
+        # Unused entries have a GUID of all 0xFF
+        if buf[:24] != b"\xff" * 24:
+            result.append(record(io.BytesIO(buf)))
+
+    return result
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From f9a8d8b1cb36869c119f34d4460458ec038d5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:01 +0000
Subject: [PATCH 23/66] fix: Use the block size for the DDF starting blocks

The disk map of a virtual disk holds byte offsets, but the starting blocks
were used as such.
---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index febf6df..fc30015 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -67,7 +67,8 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    block_size = vdcr.block_size if vdcr.block_size != 0xFFFF else matched_pd.block_size
+                    vd_pd_map[sec * count + i] = (starting_block * block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From 693645ad91aa07962957dc93f0c7c43ffcb277bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:03 +0000
Subject: [PATCH 24/66] fix: Only use the extents of a DDF concatenation

A concatenation consists of the configured extents, not of whole disks.
---
 dissect/volume/ddf/ddf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index fc30015..b1d8263 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -99,6 +99,13 @@ class DDFVirtualDisk(VirtualDisk):
             vdcr.secondary_element_count,
         )
 
+        if level == Level.LINEAR:
+            extent_size = vdcr.header.Block_Count * block_size
+            disks = {
+                idx: (0, PhysicalDisk(disk.fh, disk.offset + offset, extent_size))
+                for idx, (offset, disk) in disks.items()
+            }
+
         super().__init__(
             self.vdr.name,
             self.vdr.guid.hex(),
-- 
2.43.0


From 7f4986e879266a778bdb5c1c8cddf99ce3f8aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:05 +0000
Subject: [PATCH 25/66] fix: Let the most recent DDF records define virtual
 disks

The records of whichever disk was supplied last were used, also if that disk
is out of date.
---
 dissect/volume/ddf/ddf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index b1d8263..229992a 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -49,13 +49,17 @@ class DDFConfiguration(Configuration):
         vdcr_map: dict[bytes, VirtualDiskConfigurationRecord] = {}
         vdcr_uniq: dict[tuple[bytes, int], VirtualDiskConfigurationRecord] = {}
 
-        for pd in physical_disks:
+        vdcrs: list[VirtualDiskConfigurationRecord] = []
+
+        # Most recent last
+        for pd in sorted(physical_disks, key=lambda pd: pd.primary_header.Sequence_Number):
             pd_map[pd.reference] = pd
             vde_map.update({vde.guid: vde for vde in pd.virtual_disk_records})
-            vdcr_map.update({vdcr.guid: vdcr for vdcr in pd.virtual_disk_configuration_records})
-            vdcr_uniq.update(
-                {(vdcr.guid, vdcr.secondary_element_seq): vdcr for vdcr in pd.virtual_disk_configuration_records}
-            )
+            vdcrs.extend(pd.virtual_disk_configuration_records)
+
+        vdcrs.sort(key=lambda vdcr: vdcr.sequence_number)
+        vdcr_map.update({vdcr.guid: vdcr for vdcr in vdcrs})
+        vdcr_uniq.update({(vdcr.guid, vdcr.secondary_element_seq): vdcr for vdcr in vdcrs})
 
         vd_map: dict = {}
         for vdcr in vdcr_uniq.values():
-- 
2.43.0


From f5d1173609fd9bc1773559bfd6bd7cadd2756af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:07 +0000
Subject: [PATCH 26/66] fix: Do not count gaps in the DDF physical disk
 sequence

Unused entries can be anywhere in the sequence, so it has more entries than
there are primary elements.
---
 dissect/volume/ddf/ddf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 229992a..ed5b2d7 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -267,8 +267,9 @@ class VirtualDiskConfigurationRecord:
         self.block_size = self.header.Block_Size
         self.rotate_parity_count = self.header.Rotate_Parity_Count
 
-        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)[: self.primary_element_count]
-        self.starting_block = c_ddf.uint64[num_entries](fh)[: self.primary_element_count]
+        # May contain gaps, which are filled with 0xFFFFFFFF
+        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)
+        self.starting_block = c_ddf.uint64[num_entries](fh)
 
     def __repr__(self) -> str:
         return f"<VirtualDiskConfigurationRecord guid={self.guid}>"
-- 
2.43.0


From 5b1f3d76309565ca30b818171f9b5580be4c510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:32 +0000
Subject: [PATCH 27/66] fix: Stop at the first byte after the numerals of a
 vinum size

A minus sign after the numerals made the whole size zero.
---
 dissect/volume/vinum/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/vinum/config.py b/dissect/volume/vinum/config.py
index 9ba646c..bcb2dd3 100644
--- a/dissect/volume/vinum/config.py
+++ b/dissect/volume/vinum/config.py
@@ -117,12 +117,13 @@ class SDState(BytesDefaultEnum):
     _default = DOWN
 
 
+RE_SIZE = re.compile(rb"(-?[0-9]*)(.?)", re.DOTALL)
+
+
 def _parse_size(size: bytes) -> int:
     # Only the first byte after the numerals (and optional minus sign) should
     # be considered.
-    postfix = size.lstrip(b"-0123456789")
-    numeral = size[: -len(postfix)] if postfix else size
-    unit = postfix[:1]
+    numeral, unit = RE_SIZE.match(size).groups()
 
     try:
         size = int(numeral)
-- 
2.43.0


From c48f0769ecd26aa25965509e3f5508c5b1dff321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:30 +0000
Subject: [PATCH 28/66] fix: Use the drive offset of vinum subdisks

---
 dissect/volume/vinum/vinum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..2c73cfd 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,9 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            # The driveoffset includes the vinum headers, the data of a disk does not
+                            data_offset = max(0, (sd.driveoffset or 0) - c_vinum.GV_DATA_START)
+                            disk_map[idx] = (data_offset, disks_by_name[sd.drive])
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From f608951e2da2473dca87ee385d3288cf1eb51d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:32 +0000
Subject: [PATCH 29/66] fix: Limit concatenated vinum plexes to the length of
 their subdisks

---
 dissect/volume/vinum/vinum.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 2c73cfd..d98bd6e 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -11,7 +11,9 @@ from functools import cached_property
 from typing import TYPE_CHECKING, BinaryIO, TypedDict, TypeVar
 
 from dissect.util import ts
+from dissect.util.stream import MappingStream
 
+from dissect.volume.exceptions import RAIDError
 from dissect.volume.raid.raid import (
     RAID,
     Configuration,
@@ -282,6 +284,21 @@ class VinumPlexDisk(VirtualDisk):
             disk_map,
         )
 
+    def open(self) -> BinaryIO:
+        """Return a file-like object of the plex."""
+        if self.level != Level.LINEAR:
+            return super().open()
+
+        if len(self.disk_map) != self.num_disks:
+            raise RAIDError(f"Missing disks in concatenated plex {self.uuid} ({self.name})")
+
+        # Only the part of the disks that is allocated to the SDs belongs to the plex
+        stream = MappingStream()
+        for idx, sd in enumerate(sorted(self.sds, key=lambda sd: sd.plexoffset)):
+            data_offset, disk = self.disk_map[idx]
+            stream.add(sd.plexoffset, sd.length, disk.open(), data_offset)
+        return stream
+
 
 class VinumMirrorDisk(VirtualDisk):
     def __init__(
-- 
2.43.0


From 3127814ca5d51d244cf499950dc1a5f3c6e7341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:34 +0000
Subject: [PATCH 30/66] fix: Read vinum mirrors from a complete plex

---
 dissect/volume/vinum/vinum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index d98bd6e..193262b 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -214,6 +214,10 @@ class VinumConfiguration(Configuration):
                             plex_map[idx] = (0, plex_disk)
 
                     if plex_map:
+                        # Mirrors are read from their first plex, so start with the ones without missing disks.
+                        plex_map = dict(
+                            sorted(plex_map.items(), key=lambda item: len(item[1][1].disk_map) < item[1][1].num_disks)
+                        )
                         virtual_disks.append(VinumMirrorDisk(volume, plexes, plex_map))
 
             else:
-- 
2.43.0


From eeda2af8ab849c18748c2f1501fb0cfd497adf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:34 +0000
Subject: [PATCH 31/66] fix: Continue reading thin devices after unmapped
 blocks

---
 dissect/volume/dm/thin.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..42cc100 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -76,19 +76,16 @@ class ThinDevice(AlignedStream):
         result = []
         while length > 0:
             block_info = data_mapping.lookup([self.device_id, block])
-            if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+            read_size = min(length, self.block_size)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
+            if block_info is None:
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
             offset += read_size
-- 
2.43.0


From eb98eb364aa79d815a1da63c9addcc2b8e78d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:36 +0000
Subject: [PATCH 32/66] fix: Read the thin pool superblock from its location

---
 dissect/volume/dm/thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 42cc100..feb4abe 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,7 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+        self.fh.seek(c_dm.THIN_SUPERBLOCK_LOCATION)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 13546a2a872ced153e6133a896dae6fb1ec34091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:29 +0000
Subject: [PATCH 33/66] fix: End LVM2 metadata arrays at lines with trailing
 whitespace

---
 dissect/volume/lvm/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..659af65 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -151,7 +151,7 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
         lines = [value]
         for line in it:
             lines.append(line)
-            if line[-1] == "]":
+            if line.rstrip().endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From b7dbbe094bef116327c182774f5aa4813bb3e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:31 +0000
Subject: [PATCH 34/66] fix: Limit LVM2 metadata comments to their own line

---
 dissect/volume/lvm/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 659af65..713d190 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -113,7 +113,7 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    s = re.sub(r"(#[^\"\n]*)$", "", string, flags=re.MULTILINE)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From 2e51c4cccb209378e27bcc969cb7af3d5d50b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:39 +0000
Subject: [PATCH 35/66] fix: Read LVM2 metadata that wraps around its circular
 area

---
 dissect/volume/lvm/c_lvm2.py   |  2 ++
 dissect/volume/lvm/physical.py | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/c_lvm2.py b/dissect/volume/lvm/c_lvm2.py
index 3481010..8f13df4 100644
--- a/dissect/volume/lvm/c_lvm2.py
+++ b/dissect/volume/lvm/c_lvm2.py
@@ -46,6 +46,8 @@ SECTOR_SIZE = 512
 
 LABEL_SCAN_SECTORS = 4
 
+MDA_HEADER_SIZE = 512
+
 STATUS_FLAG_ALLOCATABLE = "ALLOCATABLE"  # pv only
 STATUS_FLAG_RESIZEABLE = "RESIZEABLE"  # vg only
 STATUS_FLAG_READ = "READ"
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 713d190..a915ab0 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO
 from dissect.util.stream import RunlistStream
 
 from dissect.volume.exceptions import LVM2Error
-from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, SECTOR_SIZE, c_lvm
+from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, SECTOR_SIZE, c_lvm
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -70,8 +70,18 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
-        self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        offset = raw_locn[0].offset
+        size = raw_locn[0].size - 1
+
+        # A metadata area is a circular buffer, the text can continue right after the header
+        remaining = max(0, offset + size - mda_header.size)
+        self.fh.seek(mda_header.start + offset)
+        buf = self.fh.read(size - remaining)
+        if remaining:
+            self.fh.seek(mda_header.start + MDA_HEADER_SIZE)
+            buf += self.fh.read(remaining)
+
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From 9b5867812a85d03ef42e445f664562eef578c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:42 +0000
Subject: [PATCH 36/66] fix: Use the most recent metadata of all LVM2 metadata
 areas and devices

---
 dissect/volume/lvm/lvm2.py     |  7 +++++--
 dissect/volume/lvm/physical.py | 21 ++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..6f4ee9b 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -8,7 +8,7 @@ from dissect.util import ts
 
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.metadata import VolumeGroup
-from dissect.volume.lvm.physical import LVM2Device
+from dissect.volume.lvm.physical import LVM2Device, latest_metadata
 
 if TYPE_CHECKING:
     from datetime import datetime
@@ -28,7 +28,10 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        self.metadata = latest_metadata([device.metadata for device in devices if device.metadata])
+        if self.metadata is None:
+            raise LVM2Error("Can't find volume group metadata on any device")
+
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index a915ab0..11bb7b7 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -63,15 +63,15 @@ class LVM2Device:
 
     @cached_property
     def metadata(self) -> dict | None:
-        if not self._metadata_areas:
-            return None
+        # An area can be empty, and an ignored area is not kept up to date
+        areas = [(header, raw_locn[0]) for header, raw_locn in self._metadata_areas if raw_locn and raw_locn[0].size]
+        areas = [area for area in areas if not area[1].flags & c_lvm.RAW_LOCN_IGNORED] or areas
 
-        # Only support the first metadata area for now
-        # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
+        return latest_metadata([self._read_metadata(header, raw_locn) for header, raw_locn in areas])
 
-        offset = raw_locn[0].offset
-        size = raw_locn[0].size - 1
+    def _read_metadata(self, mda_header: c_lvm.mda_header, raw_locn: c_lvm.raw_locn) -> dict:
+        offset = raw_locn.offset
+        size = raw_locn.size - 1
 
         # A metadata area is a circular buffer, the text can continue right after the header
         remaining = max(0, offset + size - mda_header.size)
@@ -118,6 +118,13 @@ def _read_descriptors(
     return ctype[None](fh)
 
 
+def latest_metadata(metadata: list[dict]) -> dict | None:
+    # Metadata of other volume groups than the first is disregarded
+    vgs = [next((value for value in entry.values() if isinstance(value, dict)), {}) for entry in metadata]
+    seqnos = [vg.get("seqno", 0) if vg.get("id") == vgs[0].get("id") else -1 for vg in vgs]
+    return metadata[seqnos.index(max(seqnos))] if metadata else None
+
+
 def parse_metadata(string: str) -> dict:
     root = {}
     current = root
-- 
2.43.0


From 6c6e1f4dd1dc686519c874f7248c58df58e1f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:07 +0000
Subject: [PATCH 37/66] fix: Parse LVM2 volume groups without logical volumes

---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..35c2ec9 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -56,7 +56,7 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
+    logical_volumes: dict[str, LogicalVolume] | None
 
     system_id: str | None
     allocation_policy: str | None
-- 
2.43.0


From ba20875e745136b4d51d3a3d7fb1e42097f96a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:10 +0000
Subject: [PATCH 38/66] fix: Accept LVM2 RAID segments without optional fields

---
 dissect/volume/lvm/metadata.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 35c2ec9..b33df86 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -595,13 +595,14 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
+    # RAID0 has a stripe_count, other types a device_count
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
 
     data_copies: int | None
     data_offset: int | None
-- 
2.43.0


From 63c82903d91e413d047193ef08b7540e684c3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:12 +0000
Subject: [PATCH 39/66] fix: Accept LVM2 VDO pool segments with disabled
 features

---
 dissect/volume/lvm/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index b33df86..d3b5451 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -572,13 +572,13 @@ class VdoPoolSegment(Segment):
     data: str
     header_size: int
     virtual_extents: int
-    use_compression: bool
-    use_deduplication: bool
-    use_metadata_hints: bool
+    use_compression: bool | None
+    use_deduplication: bool | None
+    use_metadata_hints: bool | None
     minimum_io_size: int
     block_map_cache_size_mb: int
     block_map_era_length: int
-    use_sparse_index: int
+    use_sparse_index: int | None
     index_memory_size_mb: int
     max_discard: int
     slab_size_mb: int
-- 
2.43.0


From e15968c2705758c806ccdd0a47c2e84d2689c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:15 +0000
Subject: [PATCH 40/66] fix: Convert the creation time of LVM2 logical volumes

---
 dissect/volume/lvm/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index d3b5451..0ac6736 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -235,6 +235,8 @@ class LogicalVolume(MetaBase):
         super()._from_dict(obj, name=name, parent=parent)
         self._name = name
         self._volume_group = parent
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
 
-- 
2.43.0


From 2bfc611ccbc7b83026f91f61e09225abb09d0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:27 +0000
Subject: [PATCH 41/66] fix: Interleave the stripes of LVM2 striped segments

---
 dissect/volume/lvm/metadata.py | 49 +++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 0ac6736..a81a627 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import AlignedStream, MappingStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -367,6 +367,37 @@ class Segment(MetaBase):
         self._logical_volume = parent
 
 
+class StripedStream(AlignedStream):
+    """Interleave multiple stripes.
+
+    Args:
+        stripes: The file-like object and start offset of each stripe.
+        stripe_size: The number of bytes to read from a stripe before moving on to the next.
+        size: The total size of all stripes.
+    """
+
+    def __init__(self, stripes: list[tuple[BinaryIO, int]], stripe_size: int, size: int):
+        self.stripes = stripes
+        self.stripe_size = stripe_size
+        super().__init__(size)
+
+    def _read(self, offset: int, length: int) -> bytes:
+        result = []
+        while length > 0:
+            chunk, chunk_offset = divmod(offset, self.stripe_size)
+            row, stripe = divmod(chunk, len(self.stripes))
+            read_size = min(length, self.stripe_size - chunk_offset)
+
+            fh, start = self.stripes[stripe]
+            fh.seek(start + row * self.stripe_size + chunk_offset)
+            result.append(fh.read(read_size))
+
+            offset += read_size
+            length -= read_size
+
+        return b"".join(result)
+
+
 @dataclass(init=False)
 class StripedSegment(Segment):
     stripe_count: int
@@ -380,18 +411,18 @@ class StripedSegment(Segment):
 
         opened_pv = {}
 
-        offset = 0
+        stripes = []
         for pv_name, extent_offset in self.stripes:
             if pv_name not in opened_pv:
-                pv_fh = pv[pv_name].open()
-                opened_pv[pv_name] = pv_fh
-            else:
-                pv_fh = opened_pv[pv_name]
+                opened_pv[pv_name] = pv[pv_name].open()
+            stripes.append((opened_pv[pv_name], extent_offset * extent_size))
 
-            stripe_size = (self.stripe_size or self.extent_count) * extent_size
-            stream.add(offset, stripe_size, pv_fh, extent_offset * extent_size)
-            offset += stripe_size
+        size = self.extent_count * extent_size
+        if len(stripes) > 1:
+            return StripedStream(stripes, self.stripe_size * SECTOR_SIZE, size)
 
+        pv_fh, pv_offset = stripes[0]
+        stream.add(0, size, pv_fh, pv_offset)
         return stream
 
     def _from_dict(self, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> None:
-- 
2.43.0


From 0900b7f1caf6c9b1816d47fcf01f0bd25f98dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:40 +0000
Subject: [PATCH 42/66] fix: Respect the extent offset of LVM2 mirror legs

---
 dissect/volume/lvm/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index a81a627..4381543 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -440,11 +440,15 @@ class MirrorSegment(Segment):
     mirrors: list[tuple[str, int]] | None
 
     def open(self) -> BinaryIO:
+        stream = MappingStream()
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                stream.add(0, self.extent_count * extent_size, lv.open(), extent_offset * extent_size)
+                return stream
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From 59beb90ed9ffb38824f0ab12ac8c450b9644347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:52 +0000
Subject: [PATCH 43/66] fix: Cover all extents when opening LVM2 physical
 volumes

---
 dissect/volume/lvm/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 4381543..c2946ac 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -164,10 +164,10 @@ class PhysicalVolume(MetaBase):
             raise LVM2Error(f"Physical volume not found: {self.name} (id={self.id}, device={self.device})")
 
         stream: RunlistStream = self.dev.open()
-        if stream.size >= self.size:
+        size = max(stream.size, self.size, self.pe_count * self.vg.extent_size * SECTOR_SIZE)
+        if stream.size >= size:
             return stream
 
-        size = max(stream.size, self.size)
         area = self.dev._data_area_descriptors[0]
 
         stream.runlist = [(area.offset // SECTOR_SIZE, size // SECTOR_SIZE)]
-- 
2.43.0


From 77081b598eef27480324e777d9aaf54629bd263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:10 +0000
Subject: [PATCH 44/66] fix: Read unmapped blocks of LVM2 thin volumes from
 their external origin

---
 dissect/volume/dm/thin.py      | 16 ++++++++++++----
 dissect/volume/lvm/metadata.py |  7 ++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index feb4abe..8f3e3c7 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -18,7 +18,7 @@ class ThinPool:
 
         self.metadata = Metadata(metadata_fh)
 
-    def open(self, device_id: int, size_hint: int | None = None) -> ThinDevice:
+    def open(self, device_id: int, size_hint: int | None = None, origin_fh: BinaryIO | None = None) -> ThinDevice:
         """Open a thin device on this pool.
 
         No size information is stored in the pool, so it's recommended to provide a size hint.
@@ -26,8 +26,9 @@ class ThinPool:
         Args:
             device_id: The device ID to open.
             size_hint: Optional size hint for the device to open.
+            origin_fh: Optional external origin of the device to open.
         """
-        return ThinDevice(self, device_id, size_hint)
+        return ThinDevice(self, device_id, size_hint, origin_fh)
 
 
 class Metadata:
@@ -54,11 +55,15 @@ class ThinDevice(AlignedStream):
         pool: The pool the device belongs to.
         device_id: The device ID of the device.
         size_hint: Optional device size hint.
+        origin_fh: Optional external origin to read unmapped blocks from.
     """
 
-    def __init__(self, pool: ThinPool, device_id: int, size_hint: int | None = None):
+    def __init__(
+        self, pool: ThinPool, device_id: int, size_hint: int | None = None, origin_fh: BinaryIO | None = None
+    ):
         self.pool = pool
         self.device_id = device_id
+        self.origin_fh = origin_fh
         self.block_size = self.pool.metadata.data_block_size * SECTOR_SIZE
 
         details_buf = self.pool.metadata.device_details.lookup(device_id)
@@ -79,7 +84,10 @@ class ThinDevice(AlignedStream):
             block_info = data_mapping.lookup([self.device_id, block])
             read_size = min(length, self.block_size)
 
-            if block_info is None:
+            if block_info is None and self.origin_fh is not None:
+                self.origin_fh.seek(offset)
+                result.append(self.origin_fh.read(read_size).ljust(read_size, b"\x00"))
+            elif block_info is None:
                 result.append(b"\x00" * read_size)
             else:
                 block_time = int.from_bytes(block_info, "little")
diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index c2946ac..8d72721 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -486,7 +486,12 @@ class ThinSegment(Segment):
         thin_pool_lv = self._logical_volume._volume_group.logical_volumes[self.thin_pool]
         thin_pool_segment: ThinPoolSegment = thin_pool_lv.segments[0]
         thin_pool = thin_pool_segment.open_pool()
-        return thin_pool.open(self.device_id, self.extent_count * extent_size)
+
+        origin_fh = None
+        if self.external_origin:
+            origin_fh = self._logical_volume._volume_group.logical_volumes[self.external_origin].open()
+
+        return thin_pool.open(self.device_id, self.extent_count * extent_size, origin_fh)
 
 
 @dataclass(init=False)
-- 
2.43.0


From f69188c4a461a2079ee0b6444142600b534d91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:00 +0000
Subject: [PATCH 45/66] fix: Accept VSS stores without a previous bitmap

---
 dissect/volume/vss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..3208dec 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,9 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if not self.desc3.store_previous_bitmap_offset:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From a1389150ab5b5047136e7c862ecd1536f2fc89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:08 +0000
Subject: [PATCH 46/66] fix: Accept VSS catalog entries of a store in any order

---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 3208dec..23f9e45 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -265,7 +265,7 @@ class Store:
         if len(descriptors) == 2:
             self.has_store_data = True
 
-        self.desc2, self.desc3 = descriptors
+        self.desc2, self.desc3 = sorted(descriptors, key=lambda descriptor: descriptor.entry_type)
         self.volume_size = self.desc2.volume_size
         self.size = self.volume_size
         self.creation_time = self.desc2.creation_time
-- 
2.43.0


From 594207f068c7bb674f890cca68cd28440e992a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:28 +0000
Subject: [PATCH 47/66] fix: Don't print a debug message for forwarded VSS
 blocks

---
 dissect/volume/vss.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 23f9e45..82e81a0 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -326,7 +326,6 @@ class Store:
         if descriptor:
             if descriptor.is_forwarder:
                 if self.next_store:
-                    print("DEBUG THIS")
                     buf = self.next_store.read_block(descriptor.relative_offset // 0x4000, self)
                 else:
                     self.fh.seek(descriptor.relative_offset)
-- 
2.43.0


From c1e648f81949faaf296f342604a82e5529bea4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:33 +0000
Subject: [PATCH 48/66] fix: raise an error for loops and invalid nodes in
 device-mapper B-trees

---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..19925d4 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        seen = set()
         while True:
+            if block in seen:
+                raise DMError(f"Loop in B-tree, already visited node: {block}")
+            seen.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid B-tree node, neither internal nor leaf: {block}")
 
 
 class Node:
-- 
2.43.0


From 368cd92c6ec2422ba804d95ec35781a1862b7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:35 +0000
Subject: [PATCH 49/66] fix: raise an error when device-mapper metadata ends
 within a B-tree node

---
 dissect/volume/dm/btree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 19925d4..21302ac 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -18,7 +18,10 @@ class BTree:
 
     def _read_node(self, block: int) -> Node:
         self.fh.seek(block * self._block_size_bytes)
-        return Node(self.fh.read(self._block_size_bytes))
+        buf = self.fh.read(self._block_size_bytes)
+        if len(buf) != self._block_size_bytes:
+            raise EOFError(f"Unexpected end of file while reading B-tree node: {block}")
+        return Node(buf)
 
     def lookup(self, keys: int | list[int], want_high: bool = False) -> bytes | None:
         keys = [keys] if not isinstance(keys, list) else keys
-- 
2.43.0


From 0427b73aaa2679cada11eba9af28d315bbe52d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:37 +0000
Subject: [PATCH 50/66] fix: raise an error for a loop in a chain of VSS blocks

---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 82e81a0..b6c05d8 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -654,8 +654,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    seen = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in seen:
+            raise Error(f"Loop in chain of blocks at offset 0x{offset:x}")
+        seen.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From c0c13b85936cb4e7a49f9df4563cff987a188fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:39 +0000
Subject: [PATCH 51/66] fix: raise an error when a volume ends within a VSS
 block

---
 dissect/volume/vss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index b6c05d8..eccaba3 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -671,6 +671,8 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
 def read_block_data(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Structure, bytes]:
     fh.seek(offset)
     buf = fh.read(BLOCK_SIZE)
+    if len(buf) != BLOCK_SIZE:
+        raise EOFError(f"Unexpected end of file while reading block at offset 0x{offset:x}")
     header = struct(buf)
 
     if header.identifier != VSS_IDENTIFIER:
-- 
2.43.0


From 3555c3e93001fc9a1108194593abfb10f8a4c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 52/66] fix: raise an error for loops in extended boot records,
 every record is visited at most once

---
 dissect/volume/disk/schemes/mbr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index c358a71..23aeefe 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -54,6 +54,7 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        self._seen = {self.offset}
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
     def _partitions(
@@ -70,6 +71,10 @@ class MBR:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
+                if part_offset in self._seen:
+                    raise DiskError(f"Loop in extended boot records, already visited offset: 0x{part_offset:x}")
+                self._seen.add(part_offset)
+
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
-- 
2.43.0


From 1ec5df5b9b78270a2f794cb9de99ef941e236b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:43 +0000
Subject: [PATCH 53/66] fix: raise an error for an invalid GPT partition entry
 size

---
 dissect/volume/disk/schemes/gpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index bc0a02c..c495904 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -71,6 +71,9 @@ class GPT:
         if self.gpt.signature != b"EFI PART":
             raise DiskError(f"Invalid GPT signature, expected 'EFI PART', got {self.gpt.signature!r}.")
 
+        if self.gpt.partition_entry_size < len(c_gpt.GPT_PARTITION):
+            raise DiskError(f"Invalid GPT partition entry size: {self.gpt.partition_entry_size}")
+
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-- 
2.43.0


From 181ef8dceb630b1df91970072cf8bf188767ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:45 +0000
Subject: [PATCH 54/66] fix: don't retry all mirrors at every level when LVM2
 mirrors refer to each other

---
 dissect/volume/lvm/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 8d72721..75720e4 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -449,7 +449,10 @@ class MirrorSegment(Segment):
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
                 stream.add(0, self.extent_count * extent_size, lv.open(), extent_offset * extent_size)
                 return stream
-            except Exception:  # noqa: PERF203
+            except RecursionError:  # noqa: PERF203
+                # Mirrors of each other, no need to try all of them at every level
+                raise
+            except Exception:
                 pass
         else:
             raise LVM2Error("No mirrors available")
-- 
2.43.0


From cdc6fe67962732a36c0835ad54bc155c28f64243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:29 +0000
Subject: [PATCH 55/66] fix: check the signature of the primary DDF header

---
 dissect/volume/ddf/ddf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index ed5b2d7..f17bbd7 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -147,6 +147,11 @@ class DDFPhysicalDisk(PhysicalDisk):
 
         fh.seek(self.primary_header_offset)
         self.primary_header = c_ddf.DDF_Header(fh)
+        if self.primary_header.Signature != c_ddf.DDF_HEADER_SIGNATURE:
+            raise DDFError(
+                "Invalid DDF primary header. "
+                f"Signature: {self.primary_header.Signature:#010x}, expected {c_ddf.DDF_HEADER_SIGNATURE:#x}"
+            )
         self.secondary_header = None
         if self.anchor.Secondary_Header_LBA != 0xFFFFFFFFFFFFFFFF:
             self.secondary_header_offset = self.anchor.Secondary_Header_LBA * sector_size
-- 
2.43.0


From 3f2bf660d27c1124027d697b5b30ff03a598c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:31 +0000
Subject: [PATCH 56/66] fix: ignore LVM2 metadata areas without the metadata
 area magic

---
 dissect/volume/lvm/c_lvm2.py   | 1 +
 dissect/volume/lvm/physical.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/c_lvm2.py b/dissect/volume/lvm/c_lvm2.py
index 8f13df4..72110ea 100644
--- a/dissect/volume/lvm/c_lvm2.py
+++ b/dissect/volume/lvm/c_lvm2.py
@@ -47,6 +47,7 @@ SECTOR_SIZE = 512
 LABEL_SCAN_SECTORS = 4
 
 MDA_HEADER_SIZE = 512
+MDA_MAGIC = b" LVM2 x[5A%r0N*>"
 
 STATUS_FLAG_ALLOCATABLE = "ALLOCATABLE"  # pv only
 STATUS_FLAG_RESIZEABLE = "RESIZEABLE"  # vg only
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 11bb7b7..62bc70c 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO
 from dissect.util.stream import RunlistStream
 
 from dissect.volume.exceptions import LVM2Error
-from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, SECTOR_SIZE, c_lvm
+from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, MDA_MAGIC, SECTOR_SIZE, c_lvm
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -47,6 +47,9 @@ class LVM2Device:
         for desc in self._metadata_area_descriptors:
             self.fh.seek(desc.offset)
             header = c_lvm.mda_header(self.fh)
+            if header.magic != MDA_MAGIC:
+                # Damaged, other areas have the same contents
+                continue
             raw_location_descriptors = _read_descriptors(self.fh, c_lvm.raw_locn)
             self._metadata_areas.append((header, raw_location_descriptors))
 
-- 
2.43.0


From f8defcc7760a2c64cf124e64715c2500a1a1e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:33 +0000
Subject: [PATCH 57/66] fix: raise an error when a device ends within the LVM2
 metadata

---
 dissect/volume/lvm/physical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 62bc70c..2b32c51 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -84,6 +84,9 @@ class LVM2Device:
             self.fh.seek(mda_header.start + MDA_HEADER_SIZE)
             buf += self.fh.read(remaining)
 
+        if len(buf) != size:
+            raise EOFError("Unexpected end of file while reading LVM2 metadata")
+
         return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
-- 
2.43.0


From 77d1537f856e0c68e9a5661e1801a7022393c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:36 +0000
Subject: [PATCH 58/66] fix: raise an error when a device ends within the Vinum
 configuration

---
 dissect/volume/vinum/vinum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 193262b..cb521ac 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -365,7 +365,10 @@ class VinumPhysicalDisk(PhysicalDisk):
 
     def _read_config(self, config_offset: int) -> bytes:
         self.fh.seek(config_offset)
-        return self.fh.read(self.header.config_length)
+        buf = self.fh.read(self.header.config_length)
+        if len(buf) != self.header.config_length:
+            raise EOFError("Unexpected end of file while reading Vinum configuration")
+        return buf
 
     @cached_property
     def config(self) -> bytes:
-- 
2.43.0


From 5a0555d8068d7cd1ea238d2b49aa4e4692f2c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:23 +0000
Subject: [PATCH 59/66] fix: name the type of BSD slices after their filesystem

---
 dissect/volume/disk/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/partition.py b/dissect/volume/disk/partition.py
index 00935a7..a0c5d41 100644
--- a/dissect/volume/disk/partition.py
+++ b/dissect/volume/disk/partition.py
@@ -219,7 +219,7 @@ class Partition:
         self.flags = flags
         self.guid = guid
         self.type_str = type_str or translate_partition_type(self.type)
-        self.type_name = translate_partition_type(self.type, False)
+        self.type_name = type_str or translate_partition_type(self.type, False)
         self.raw = raw
 
     def __repr__(self) -> str:
-- 
2.43.0


From 790bd0bcd0c757880bfc9e885ec93ef1e023ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:47 +0000
Subject: [PATCH 60/66] fix: reject a protective MBR without GPT that also has
 BSD partitions

---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 5b198ef..9ca2343 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -44,7 +44,7 @@ class Disk:
             else:
                 self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(main_scheme, MBR) and any(p.type == 0xEE for p in main_scheme.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
-- 
2.43.0


From ec69464834d4d7c5d3cbce81d7e90206b3467252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:18 +0000
Subject: [PATCH 61/66] fix: read the timestamp of DDF virtual disk GUIDs as
 big endian

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index f17bbd7..80a3733 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -258,7 +258,7 @@ class VirtualDiskConfigurationRecord:
         self.header = c_ddf.VD_Configuration_Record(fh)
 
         self.guid = self.header.VD_GUID
-        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "little"))
+        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "big"))
         self.timestamp = ts.from_unix(DECADE + self.header.Timestamp)
         self.sequence_number = self.header.Sequence_Number
         self.primary_element_count = self.header.Primary_Element_Count
-- 
2.43.0


From e80ec83e21fc6649e7da96e28909ecf9817351f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:32 +0000
Subject: [PATCH 62/66] fix: GPT disks that do not start at the beginning of
 the file

---
 dissect/volume/disk/schemes/gpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index c495904..de157f4 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -88,7 +88,7 @@ class GPT:
                 if seen_gpt:
                     continue
 
-                base_offset = self.gpt.lba_partition_array * self.sector_size
+                base_offset = self.mbr.offset + self.gpt.lba_partition_array * self.sector_size
                 self.fh.seek(base_offset)
 
                 # Numbering a hybrid GPT is a bit weird, I think it's best to do nothing
@@ -110,7 +110,7 @@ class GPT:
                     yield Partition(
                         disk=self,
                         number=part_num + 1,  # partitions are 1-indexed
-                        offset=partition.first_lba * self.sector_size,
+                        offset=self.mbr.offset + partition.first_lba * self.sector_size,
                         size=(partition.last_lba - partition.first_lba) * self.sector_size,
                         type=UUID(bytes_le=partition.type_guid),
                         name=name,
-- 
2.43.0


From 2ac34f345d114856d2117f0fbbba49bd059b2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:44 +0000
Subject: [PATCH 63/66] fix: Apple partition maps that do not start at the
 beginning of the file

---
 dissect/volume/disk/schemes/apm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 344418f..25335bc 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -43,12 +43,13 @@ class APM:
     def __init__(self, fh: BinaryIO, sector_size: int = 512):
         self.fh = fh
         self.sector_size = sector_size
+        self.offset = fh.tell()
         self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature == b"ER":
             # We parsed the boot jump, the block size is conveniently in reserved_1 field
             self.sector_size = self.apm.reserved_1
-            fh.seek(self.sector_size)
+            fh.seek(self.offset + self.sector_size)
             self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature != b"PM":
@@ -65,7 +66,7 @@ class APM:
             yield Partition(
                 disk=self,
                 number=i + 1,  # partitions are 1-indexed
-                offset=p.partition_start * self.sector_size,
+                offset=self.offset + p.partition_start * self.sector_size,
                 size=p.partition_size * self.sector_size,
                 type=p.partition_type.rstrip(b"\x00").decode(),
                 name=p.partition_name.rstrip(b"\x00").decode(),
-- 
2.43.0


From f2eef6d2c4297ded6c3d54df32e4efcec3ac1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:46 +0000
Subject: [PATCH 64/66] fix: BSD disklabels that do not start at the beginning
 of the file

---
 dissect/volume/disk/schemes/bsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/schemes/bsd.py b/dissect/volume/disk/schemes/bsd.py
index 65e1fb0..741a672 100644
--- a/dissect/volume/disk/schemes/bsd.py
+++ b/dissect/volume/disk/schemes/bsd.py
@@ -294,6 +294,7 @@ class BSD:
     def __init__(self, fh: BinaryIO, sector_size: int = 512):
         self.fh = fh
         self.sector_size = sector_size
+        self.offset = fh.tell()
 
         # BSD disklabel is usually part of another partition scheme such as MBR or GPT.
         # The actual BSD disklabel info always starts at the second sector.
@@ -363,7 +364,7 @@ class BSD:
             yield Partition(
                 disk=self,
                 number=i + 1,  # partitions are 1-indexed
-                offset=offset,
+                offset=self.offset + offset,
                 size=size,
                 type=partition.p_fstype,
                 guid=guid,
-- 
2.43.0


From 7a7035805f3370645ef99e6e86af201d20a39dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:53 +0000
Subject: [PATCH 65/66] fix: open a DDF set when none of the members of a
 virtual disk is supplied

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 80a3733..6d78efa 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -93,7 +93,7 @@ class DDFVirtualDisk(VirtualDisk):
         self.disks = disks
 
         if (block_size := self.vdcr.block_size) == 0xFFFF:
-            block_size = next(iter(disks.values()))[1].block_size
+            block_size = next((disk.block_size for _, disk in disks.values()), DEFAULT_SECTOR_SIZE)
 
         level, layout, num_disks = _convert_raid_layout(
             vdcr.primary_raid_level,
-- 
2.43.0


From 95ae5c6377485a84517236e806eb7dccb6818e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:30 +0000
Subject: [PATCH 66/66] fix: do not read from MD devices that are still being
 recovered

---
 dissect/volume/md/c_md.py | 3 +++
 dissect/volume/md/md.py   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index 7924de1..2f673f6 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -233,6 +233,9 @@ struct mdp_superblock_1 {
     uint16  dev_roles[max_dev];                     /* role in array, or 0xffff for a spare, or 0xfffe for faulty */
 };
 
+/* feature_map bits */
+#define MD_FEATURE_RECOVERY_OFFSET      2           /* recovery_offset is present and must be honoured */
+
 /* non-obvious values for 'level' */
 #define LEVEL_MULTIPATH                 (-4)
 #define LEVEL_LINEAR                    (-1)
diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 5b355e9..549f8fd 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -123,7 +123,8 @@ class MDPhysicalDisk(PhysicalDisk):
             role = c_md.MD_DISK_ROLE_SPARE
             if self.sb.dev_number < self.sb.max_dev:
                 role = self.sb.dev_roles[self.sb.dev_number]
-            if role <= c_md.MD_DISK_ROLE_MAX:
+            # A device that is still being recovered doesn't have all of the data of its role yet
+            if role <= c_md.MD_DISK_ROLE_MAX and not self.sb.feature_map & c_md.MD_FEATURE_RECOVERY_OFFSET:
                 self.raid_disk = role
             else:
                 self.raid_disk = None
-- 
2.43.0

