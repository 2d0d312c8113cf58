------------------------------ MODULE PartType ------------------------------
(***************************************************************************)
(* What a partition is called (disk/partition.py).  Every scheme has its   *)
(* own kind of type: a number (MBR), a GUID (GPT), a text (APM) or a       *)
(* number with other meanings (slices of a BSD disklabel).  A partition    *)
(* describes its type as id and name, and slices and map entries by name.  *)
(* Disks are built from entries of several schemes: slices are inside of   *)
(* other partitions, so that both kinds of numbers are on one disk.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Family, Steps

-----------------------------------------------------------------------------
(* Tables                                                                    *)
MbrNames ==
    (1 :> "FAT12,CHS") @@ (4 :> "FAT16 16-32MB,CHS") @@ (6 :> "FAT16 32MB,CHS") @@ (7 :> "NTFS") @@
    (11 :> "FAT32,CHS") @@ (12 :> "FAT32,LBA") @@ (14 :> "FAT16, 32MB-2GB,LBA") @@ (17 :> "Hidden FAT12,CHS") @@
    (20 :> "Hidden FAT16,16-32MB,CHS") @@ (22 :> "Hidden FAT16,32MB-2GB,CHS") @@
    (24 :> "AST SmartSleep Partition") @@ (27 :> "Hidden FAT32,CHS") @@ (28 :> "Hidden FAT32,LBA") @@
    (30 :> "Hidden FAT16,32MB-2GB,LBA") @@ (39 :> "PQservice") @@ (57 :> "Plan 9 partition") @@
    (60 :> "PartitionMagic recovery partition") @@ (66 :> "Microsoft MBR,Dynamic Disk") @@
    (68 :> "GoBack partition") @@ (81 :> "Novell") @@ (82 :> "CP/M") @@ (99 :> "Unix System V") @@
    (100 :> "PC-ARMOUR protected partition") @@ (130 :> "Solaris x86 or Linux Swap") @@ (131 :> "Linux") @@
    (132 :> "Hibernation") @@ (134 :> "NTFS Volume Set") @@ (135 :> "NTFS Volume Set") @@ (159 :> "BSD/OS") @@
    (160 :> "Hibernation") @@ (161 :> "Hibernation") @@ (165 :> "FreeBSD") @@ (166 :> "OpenBSD") @@
    (168 :> "Mac OSX") @@ (169 :> "NetBSD") @@ (171 :> "Mac OSX Boot") @@ (175 :> "MacOS X HFS") @@
    (183 :> "BSDI") @@ (184 :> "BSDI Swap") @@ (187 :> "Boot Wizard hidden") @@
    (190 :> "Solaris 8 boot partition") @@ (216 :> "CP/M-86") @@
    (222 :> "Dell PowerEdge Server utilities (FAT fs)") @@ (223 :> "DG/UX virtual disk manager partition") @@
    (235 :> "BeOS BFS") @@ (239 :> "EFI System Partition") @@ (251 :> "VMWare File System") @@ (252 :> "VMWare Swap")

FsNames ==
    (1 :> "swap") @@ (2 :> "Version 6") @@ (3 :> "Version 7") @@ (4 :> "System V") @@ (5 :> "4.1BSD") @@
    (6 :> "Eighth Edition") @@ (7 :> "4.2BSD") @@ (8 :> "MSDOS") @@ (9 :> "4.4LFS") @@ (10 :> "unknown") @@
    (11 :> "HPFS") @@ (12 :> "ISO9660") @@ (13 :> "boot") @@ (14 :> "vinum") @@ (15 :> "raid") @@
    (16 :> "Filecore") @@ (17 :> "EXT2FS") @@ (18 :> "NTFS") @@ (20 :> "ccd") @@ (21 :> "jfs") @@ (22 :> "HAMMER") @@
    (23 :> "HAMMER2") @@ (24 :> "UDF") @@ (26 :> "EFS") @@ (27 :> "ZFS") @@ (30 :> "nandfs")

\* GUIDs as eight words
Guids == <<
    <<<<\H024D, \HEE41, \H33E7, \H11D3, \H9D69, \H0008, \HC781, \HF39F>>, "MBR partition scheme">>,
    <<<<\HC12A, \H7328, \HF81F, \H11D2, \HBA4B, \H00A0, \HC93E, \HC93B>>, "EFI System partition">>,
    <<<<\H2168, \H6148, \H6449, \H6E6F, \H744E, \H6565, \H6445, \H4649>>, "BIOS Boot partition">>,
    <<<<\HD3BF, \HE2DE, \H3DAF, \H11DF, \HBA40, \HE3A5, \H56D8, \H9593>>, "Intel Fast Flash (iFFS) partition (for Intel Rapid Start technology)">>,
    <<<<\HF401, \H9732, \H066E, \H4E12, \H8273, \H346C, \H5641, \H494F>>, "Sony boot partition">>,
    <<<<\HBFBF, \HAFE7, \HA34F, \H448A, \H9A5B, \H6213, \HEB73, \H6C22>>, "Lenovo boot partition">>,
    <<<<\HE3C9, \HE316, \H0B5C, \H4DB8, \H817D, \HF92D, \HF002, \H15AE>>, "Microsoft Reserved Partition (MSR)">>,
    <<<<\HEBD0, \HA0A2, \HB9E5, \H4433, \H87C0, \H68B6, \HB726, \H99C7>>, "Windows Basic data partition">>,
    <<<<\H5808, \HC8AA, \H7E8F, \H42E0, \H85D2, \HE1E9, \H0434, \HCFB3>>, "Windows Logical Disk Manager (LDM) metadata">>,
    <<<<\HAF9B, \H60A0, \H1431, \H4F62, \HBC68, \H3311, \H714A, \H69AD>>, "Windows Logical Disk Manager data">>,
    <<<<\HDE94, \HBBA4, \H06D1, \H4D40, \HA16A, \HBFD5, \H0179, \HD6AC>>, "Windows Recovery Environment">>,
    <<<<\H37AF, \HFC90, \HEF7D, \H4E96, \H91C3, \H2D7A, \HE055, \HB174>>, "Windows IBM General Parallel File System (GPFS)">>,
    <<<<\HE75C, \HAF8F, \HF680, \H4CEE, \HAFA3, \HB001, \HE56E, \HFC2D>>, "Windows Storage Spaces partition">>,
    <<<<\H7589, \H4C1E, \H3AEB, \H11D3, \HB7C1, \H7B03, \HA000, \H0000>>, "HP-UX Data">>,
    <<<<\HE2A1, \HE728, \H32E3, \H11D6, \HA682, \H7B03, \HA000, \H0000>>, "HP-UX Service">>,
    <<<<\H0FC6, \H3DAF, \H8483, \H4772, \H8E79, \H3D69, \HD847, \H7DE4>>, "Linux filesystem data">>,
    <<<<\HA19D, \H880F, \H05FC, \H4D3B, \HA006, \H743F, \H0F84, \H911E>>, "Linux RAID">>,
    <<<<\H4447, \H9540, \HF297, \H41B2, \H9AF7, \HD131, \HD5F0, \H458A>>, "Linux Root (x86)">>,
    <<<<\H4F68, \HBCE3, \HE8CD, \H4DB1, \H96E7, \HFBCA, \HF984, \HB709>>, "Linux Root (x86-64)">>,
    <<<<\H69DA, \HD710, \H2CE4, \H4E3C, \HB16C, \H21A1, \HD49A, \HBED3>>, "Linux Root (32-bit ARM)">>,
    <<<<\HB921, \HB045, \H1DF0, \H41C3, \HAF44, \H4C6F, \H280D, \H3FAE>>, "Linux Root (64-bit ARM/AArch64)">>,
    <<<<\H993D, \H8D3D, \HF80E, \H4225, \H855A, \H9DAF, \H8ED7, \HEA97>>, "Linux Root (IA-64)">>,
    <<<<\H0657, \HFD6D, \HA4AB, \H43C4, \H84E5, \H0933, \HC84B, \H4F4F>>, "Linux Swap">>,
    <<<<\HE6D6, \HD379, \HF507, \H44C2, \HA23C, \H238F, \H2A3D, \HF928>>, "Linux Logical Volume Manager (LVM)">>,
    <<<<\H933A, \HC7E1, \H2EB4, \H4F13, \HB844, \H0E14, \HE2AE, \HF915>>, "Linux /home">>,
    <<<<\H3B8F, \H8425, \H20E0, \H4F3B, \H907F, \H1A25, \HA76F, \H98E8>>, "Linux /srv (server data)">>,
    <<<<\H7FFE, \HC5C9, \H2D00, \H49B7, \H8941, \H3EA1, \H0A55, \H86B7>>, "Linux Plain dm-crypt">>,
    <<<<\HCA7D, \H7CCB, \H63ED, \H4C53, \H861C, \H1742, \H5360, \H59CC>>, "Linux LUKS">>,
    <<<<\H8DA6, \H3339, \H0007, \H60C0, \HC436, \H083A, \HC823, \H0908>>, "Linux Reserved">>,
    <<<<\H83BD, \H6B9D, \H7F41, \H11DC, \HBE0B, \H0015, \H60B8, \H4F0F>>, "FreeBSD Boot">>,
    <<<<\H516E, \H7CB4, \H6ECF, \H11D6, \H8FF8, \H0002, \H2D09, \H712B>>, "FreeBSD Data">>,
    <<<<\H516E, \H7CB5, \H6ECF, \H11D6, \H8FF8, \H0002, \H2D09, \H712B>>, "FreeBSD Swap">>,
    <<<<\H516E, \H7CB6, \H6ECF, \H11D6, \H8FF8, \H0002, \H2D09, \H712B>>, "FreeBSD Unix File System (UFS)">>,
    <<<<\H516E, \H7CB8, \H6ECF, \H11D6, \H8FF8, \H0002, \H2D09, \H712B>>, "FreeBSD Vinum volume manager">>,
    <<<<\H516E, \H7CBA, \H6ECF, \H11D6, \H8FF8, \H0002, \H2D09, \H712B>>, "FreeBSD ZFS">>,
    <<<<\H9D08, \H7404, \H1CA5, \H11DC, \H8817, \H0130, \H1BB8, \HA9F5>>, "DragonFlyBSD disklabel32">>,
    <<<<\H3D48, \HCE54, \H1D16, \H11DC, \H8696, \H0130, \H1BB8, \HA9F5>>, "DragonFlyBSD disklabel64">>,
    <<<<\H4846, \H5300, \H0000, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple Hierarchical File System Plus (HFS+)">>,
    <<<<\H5546, \H5300, \H0000, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple UFS">>,
    <<<<\H5241, \H4944, \H0000, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple RAID">>,
    <<<<\H5241, \H4944, \H5F4F, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple RAID (offline)">>,
    <<<<\H426F, \H6F74, \H0000, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple Boot (Recovery HD)">>,
    <<<<\H4C61, \H6265, \H6C00, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple Label">>,
    <<<<\H5265, \H636F, \H7665, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple TV Recovery">>,
    <<<<\H5374, \H6F72, \H6167, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple Core Storage (i.e. Lion FileVault)">>,
    <<<<\H7C34, \H57EF, \H0000, \H11AA, \HAA11, \H0030, \H6543, \HECAC>>, "Apple APFS">>,
    <<<<\H6A82, \HCB45, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Boot">>,
    <<<<\H6A85, \HCF4D, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Root">>,
    <<<<\H6A87, \HC46F, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Swap">>,
    <<<<\H6A8B, \H642B, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Backup">>,
    <<<<\H6A89, \H8CC3, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris /usr // Apple ZFS">>,
    <<<<\H6A8E, \HF2E9, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris /var">>,
    <<<<\H6A90, \HBA39, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris /home">>,
    <<<<\H6A92, \H83A5, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Alternate sector">>,
    <<<<\H6A94, \H5A3B, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Reserved">>,
    <<<<\H6A96, \H30D1, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Reserved">>,
    <<<<\H6A98, \H0767, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Reserved">>,
    <<<<\H6A96, \H237F, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Reserved">>,
    <<<<\H6A8D, \H2AC7, \H1DD2, \H11B2, \H99A6, \H0800, \H2073, \H6631>>, "Solaris Reserved">>,
    <<<<\H49F4, \H8D32, \HB10E, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD Swap">>,
    <<<<\H49F4, \H8D5A, \HB10E, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD FFS">>,
    <<<<\H49F4, \H8D82, \HB10E, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD LFS">>,
    <<<<\H49F4, \H8DAA, \HB10E, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD RAID">>,
    <<<<\H2DB5, \H19C4, \HB10F, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD Concatenated partition">>,
    <<<<\H2DB5, \H19EC, \HB10F, \H11DC, \HB99B, \H0019, \HD187, \H9648>>, "NetBSD Encrypted partition">>,
    <<<<\HFE3A, \H2A5D, \H4F32, \H41A7, \HB725, \HACCC, \H3285, \HA309>>, "ChromeOS kernel">>,
    <<<<\H3CB8, \HE202, \H3B7E, \H47DD, \H8A3C, \H7FF2, \HA13C, \HFCEC>>, "ChromeOS rootfs">>,
    <<<<\H2E0A, \H753D, \H9E48, \H43B0, \H8337, \HB151, \H92CB, \H1B5E>>, "ChromeOS future use">>,
    <<<<\H4246, \H5331, \H3BA3, \H10F1, \H802A, \H4861, \H696B, \H7521>>, "Haiku BFS">>,
    <<<<\H85D5, \HE45E, \H237C, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD Boot">>,
    <<<<\H85D5, \HE45A, \H237C, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD Data">>,
    <<<<\H85D5, \HE45B, \H237C, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD Swap">>,
    <<<<\H0394, \HEF8B, \H237E, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD Unix File System (UFS)">>,
    <<<<\H85D5, \HE45C, \H237C, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD Vinum volume manager">>,
    <<<<\H85D5, \HE45D, \H237C, \H11E1, \HB4B3, \HE89A, \H8F7F, \HC3A7>>, "MidnightBSD ZFS">>,
    <<<<\H45B0, \H969E, \H9B03, \H4F30, \HB4C6, \HB4B8, \H0CEF, \HF106>>, "Ceph Journal">>,
    <<<<\H45B0, \H969E, \H9B03, \H4F30, \HB4C6, \H5EC0, \H0CEF, \HF106>>, "Ceph dm-crypt Encrypted Journal">>,
    <<<<\H4FBD, \H7E29, \H9D25, \H41B8, \HAFD0, \H062C, \H0CEF, \HF05D>>, "Ceph OSD">>,
    <<<<\H4FBD, \H7E29, \H9D25, \H41B8, \HAFD0, \H5EC0, \H0CEF, \HF05D>>, "Ceph dm-crypt OSD">>,
    <<<<\H89C5, \H7F98, \H2FE5, \H4DC0, \H89C1, \HF3AD, \H0CEF, \HF2BE>>, "Ceph disk in creation">>,
    <<<<\H89C5, \H7F98, \H2FE5, \H4DC0, \H89C1, \H5EC0, \H0CEF, \HF2BE>>, "Ceph dm-crypt disk in creation">>,
    <<<<\H824C, \HC7A0, \H36A8, \H11E3, \H890A, \H9525, \H19AD, \H3F61>>, "OpenBSD Data partition">>,
    <<<<\HCEF5, \HA9AD, \H73BC, \H4601, \H89F3, \HCDEE, \HEEE3, \H21A1>>, "QNX Power-safe (QNX6) file system">>,
    <<<<\HC918, \H18F9, \H8025, \H47AF, \H89D2, \HF030, \HD700, \H0C2C>>, "Plan 9 partition">>,
    <<<<\H9D27, \H5380, \H40AD, \H11DB, \HBF97, \H000C, \H2911, \HD1B8>>, "VMware ESX vmkcore (coredump)">>,
    <<<<\HAA31, \HE02A, \H400F, \H11DB, \H9590, \H000C, \H2911, \HD1B8>>, "VMware ESX VMFS filesystem">>,
    <<<<\H9198, \HEFFC, \H31C0, \H11DB, \H8F78, \H000C, \H2911, \HD1B8>>, "VMware ESX VMware Reserved">>,
    <<<<\H2568, \H845D, \H2332, \H4675, \HBC39, \H8FA5, \HA474, \H8D15>>, "Android-IA Bootloader">>,
    <<<<\H114E, \HAFFE, \H1552, \H4022, \HB26E, \H9B05, \H3604, \HCF84>>, "Android-IA Bootloader2">>,
    <<<<\H49A4, \HD17F, \H93A3, \H45C1, \HA0DE, \HF50B, \H2EBE, \H2599>>, "Android-IA Boot">>,
    <<<<\H4177, \HC722, \H9E92, \H4AAB, \H8644, \H4350, \H2BFD, \H5506>>, "Android-IA Recovery">>,
    <<<<\HEF32, \HA33B, \HA409, \H486C, \H9141, \H9FFB, \H711F, \H6266>>, "Android-IA Misc">>,
    <<<<\H20AC, \H26BE, \H20B7, \H11E3, \H84C5, \H6CFD, \HB947, \H11E9>>, "Android-IA Metadata">>,
    <<<<\H38F4, \H28E6, \HD326, \H425D, \H9140, \H6E0E, \HA133, \H647C>>, "Android-IA System">>,
    <<<<\HA893, \HEF21, \HE428, \H470A, \H9E55, \H0668, \HFD91, \HA2D9>>, "Android-IA Cache">>,
    <<<<\HDC76, \HDDA9, \H5AC1, \H491C, \HAF42, \HA825, \H9158, \H0C0D>>, "Android-IA Data">>,
    <<<<\HEBC5, \H97D0, \H2053, \H4B15, \H8B64, \HE0AA, \HC75F, \H4DB1>>, "Android-IA Persistent">>,
    <<<<\HC5A0, \HAEEC, \H13EA, \H11E5, \HA1B1, \H001E, \H67CA, \H0C3C>>, "Android-IA Vendor">>,
    <<<<\HBD59, \H408B, \H4514, \H490D, \HBF12, \H9878, \HD963, \HF378>>, "Android-IA Config">>,
    <<<<\H8F68, \HCC74, \HC5E5, \H48DA, \HBE91, \HA0C8, \HC15E, \H9C80>>, "Android-IA Factory">>,
    <<<<\H9FDA, \HA6EF, \H4B3F, \H40D2, \HBA8D, \HBFF1, \H6BFB, \H887B>>, "Android-IA Factory (alt)">>,
    <<<<\H7679, \H41D0, \H2085, \H11E3, \HAD3B, \H6CFD, \HB947, \H11E9>>, "Android-IA Fastboot / Tertiary">>,
    <<<<\HAC6D, \H7924, \HEB71, \H4DF8, \HB48D, \HE267, \HB271, \H48FF>>, "Android-IA OEM">>,
    <<<<\H7412, \HF7D5, \HA156, \H4B13, \H81DC, \H8671, \H7492, \H9325>>, "ONIE boot">>,
    <<<<\HD4E6, \HE2CD, \H4469, \H46F3, \HB5CB, \H1BFF, \H57AF, \HC149>>, "ONIE config">>,
    <<<<\H9E1A, \H2D38, \HC612, \H4316, \HAA26, \H8B49, \H521E, \H5A8B>>, "PowerPC PReP boot">>,
    <<<<\HBC13, \HC2FF, \H59E6, \H4262, \HA352, \HB275, \HFD6F, \H7172>>, "Freedesktop Extended Boot Partition">>
>>
GuidName == [w \in {Guids[i][1] : i \in 1 .. Len(Guids)} |-> Guids[CHOOSE i \in 1 .. Len(Guids) : Guids[i][1] = w][2]]
Known == TLCEval(DOMAIN GuidName)
\* a GUID in which one word is another one
Nudge(w, i, k) == [w EXCEPT ![i] = (@ + k) % 65536]

\* numbers that are never listed: empty, containers, the protective entry
Unlisted == {0, 5, 15, 133, 238}
\* a disklabel is inside, its slices are listed instead
Nesting == {108, 165, 166, 169}
NestingGuids == {Guids[i][1] : i \in {j \in 1 .. Len(Guids) : Guids[j][2] \in {"DragonFlyBSD disklabel32", "DragonFlyBSD disklabel64", "FreeBSD Data"}}}

-----------------------------------------------------------------------------
(* Texts                                                                     *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(x) == IF x < 16 THEN Digit[x + 1] ELSE Hex(x \div 16) \o Digit[(x % 16) + 1]
Word(x) == Digit[(x \div 4096) + 1] \o Digit[((x \div 256) % 16) + 1] \o Digit[((x \div 16) % 16) + 1] \o Digit[(x % 16) + 1]
GuidText(w) == Word(w[1]) \o Word(w[2]) \o "-" \o Word(w[3]) \o "-" \o Word(w[4]) \o "-" \o Word(w[5]) \o "-" \o Word(w[6]) \o Word(w[7]) \o Word(w[8])

\* an entry: [kind, num, guid, text]
Mbr(t) == [kind |-> "mbr", num |-> t, guid |-> <<>>, text |-> ""]
Logical(t) == [kind |-> "logical", num |-> t, guid |-> <<>>, text |-> ""]
Gpt(w) == [kind |-> "gpt", num |-> 0, guid |-> w, text |-> ""]
Slice(t, bits) == [kind |-> IF bits = 32 THEN "slice32" ELSE "slice64", num |-> t, guid |-> <<>>, text |-> ""]
Apm(s) == [kind |-> "apm", num |-> 0, guid |-> <<>>, text |-> s]

NameOf(e) == CASE e.kind \in {"mbr", "logical"} -> IF e.num \in DOMAIN MbrNames THEN MbrNames[e.num] ELSE "Unknown"
               [] e.kind = "gpt" -> IF e.guid \in Known THEN GuidName[e.guid] ELSE "Unknown"
               [] e.kind \in {"slice32", "slice64"} -> IF e.num \in DOMAIN FsNames THEN FsNames[e.num] ELSE "?"
               [] e.kind = "apm" -> e.text
\* id and name where the id alone says little, the name otherwise
TextOf(e) == CASE e.kind \in {"mbr", "logical"} -> "0x" \o Hex(e.num) \o " (" \o NameOf(e) \o ")"
               [] e.kind = "gpt" -> GuidText(e.guid) \o " (" \o NameOf(e) \o ")"
               [] OTHER -> NameOf(e)

-----------------------------------------------------------------------------
(* Disks: entries are added one by one; what is in the table of one scheme   *)
(* does not change how the entries of another one are described              *)
Numbers == (1 .. 255) \ (Unlisted \cup Nesting)
AppleTypes == {"Apple_partition_map", "Apple_HFS", "Apple_Free", "Apple_Boot", "Linux", "0x83", "7", "x"}
Few == {7, 14, 131, 191}
Choice(k) == CASE Family = "mbr" -> {Mbr(t) : t \in Numbers}
               [] Family = "logical" -> {Logical(t) : t \in Numbers}
               [] Family = "guid" -> {Gpt(w) : w \in Known \ NestingGuids}
               [] Family = "near" -> {Gpt(Nudge(w, i, d)) : w \in Known, i \in 1 .. 8, d \in {1, 256, 32768}}
               [] Family = "slice" -> {Slice(t, bits) : t \in 1 .. 255, bits \in {32, 64}}
               [] Family = "apm" -> {Apm(s) : s \in AppleTypes}
               [] Family = "mixed" -> {Mbr(t) : t \in Few} \cup {Logical(t) : t \in Few} \cup {Slice(t, 32) : t \in Few} \cup {Slice(t, 64) : t \in Few}
                                      \cup {Gpt(w) : w \in {Guids[1][1], Guids[Len(Guids)][1], Nudge(Guids[1][1], 1, 1)}}

VARIABLES disk, said
vars == <<disk, said>>
Init == disk = <<>> /\ said = <<>>
\* one kind of label per disk, one slot is left for the containers
Fits(e) == /\ Cardinality({i \in 1 .. Len(disk) : disk[i].kind \in {"slice32", "slice64"}} ) <= 6
           /\ e.kind \in {"slice32", "slice64"} => \A i \in 1 .. Len(disk) : disk[i].kind \in {"slice32", "slice64"} => disk[i].kind = e.kind
           /\ e.kind = "gpt" => \A i \in 1 .. Len(disk) : disk[i].kind # "logical"
           /\ e.kind = "logical" => \A i \in 1 .. Len(disk) : disk[i].kind # "gpt"
Add == /\ Len(disk) < Steps
       /\ \E e \in Choice(Len(disk) + 1) : /\ Fits(e)
                                          /\ disk' = Append(disk, e)
                                          /\ said' = Append(said, [name |-> NameOf(e), text |-> TextOf(e)])
\* nothing but these states is an end
End == disk # <<>> /\ UNCHANGED vars
Next == Add \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the description tells the types of one scheme apart
Distinct == \A i, j \in 1 .. Len(disk) :
    (disk[i].kind = disk[j].kind /\ disk[i].kind \in {"mbr", "logical", "gpt"} /\ said[i].text = said[j].text) => disk[i] = disk[j]
\* GUIDs next to known ones are not known
NearIsUnknown == Family = "near" => \A i \in 1 .. Len(disk) : disk[i].guid \in Known \/ said[i].name = "Unknown"
ASSUME UniqueGuids == Cardinality(Known) = Len(Guids)
Independent == \A i \in 1 .. Len(disk) : said[i] = [name |-> NameOf(disk[i]), text |-> TextOf(disk[i])]
Emit == (Len(disk) = Steps \/ Family # "mixed") /\ disk # <<>> => PrintT("@@" \o ToJson([family |-> Family, disk |-> disk, said |-> said]))
=============================================================================
