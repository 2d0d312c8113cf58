------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Partition scheme detection (disk/disk.py).  The disk is described by    *)
(* what is found at the places the readers look at:                        *)
(*   sig    boot signature in sector 0                                     *)
(*   vbr    kind of boot code in sector 0 ("" for a boot loader)           *)
(*   ee     protective entry in the partition table                        *)
(*   prim   an ordinary entry in the partition table                       *)
(*   bsdp   an entry of a BSD type, holding a disklabel ("good"), none     *)
(*          ("bad"), or no such entry ("no")                               *)
(*   er     driver descriptor signature in sector 0 (with block size ss)   *)
(*   one    what sector 1 holds: "gpt" | "apm" | "bsd32" | "bsd64" |       *)
(*          "bsdbad" (first but not second magic) | "none"                 *)
(* The readers are tried in the order GPT, MBR, APM, BSD.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Vbrs == {"", "NTFS", "MSDOS5.0", "MSWIN4.1", "EXFAT", "FVE", "SYSLINUX", "FAT32", "QNX1", "QNX2"}
Ones == {"gpt", "apm", "bsd32", "bsd64", "bsdbad", "none"}

Configs == {c \in [ss : {512, 4096}, sig : BOOLEAN, vbr : Vbrs, ee : BOOLEAN, prim : BOOLEAN,
                   bsdp : {"no", "good", "bad"}, er : BOOLEAN, one : Ones] :
              /\ (c.vbr # "" => ~c.er)          \* both live in the first bytes of sector 0
              /\ (c.er /\ c.bsdp = "bad" => TRUE)}

IsMbr(c) == c.sig /\ c.vbr = ""
\* reader -> "ok" or the reason it gives up
TryGpt(c) == IF ~IsMbr(c) THEN "no mbr" ELSE IF ~c.ee THEN "no protective entry"
             ELSE IF c.one # "gpt" THEN "no header" ELSE "ok"
TryMbr(c) == IF IsMbr(c) THEN "ok" ELSE "no mbr"
TryApm(c) == IF c.er /\ c.one = "apm" THEN "ok" ELSE "no map"
TryBsd(c) == IF c.one \in {"bsd32", "bsd64"} THEN "ok" ELSE "no label"
Try(c, s) == CASE s = "GPT" -> TryGpt(c) [] s = "MBR" -> TryMbr(c) [] s = "APM" -> TryApm(c) [] s = "BSD" -> TryBsd(c)
Order == <<"GPT", "MBR", "APM", "BSD">>

VARIABLES cfg, n, scheme, errors, phase
vars == <<cfg, n, scheme, errors, phase>>

Init == cfg \in Configs /\ n = 1 /\ scheme = "" /\ errors = <<>> /\ phase = "probe"

Probe == /\ phase = "probe" /\ n <= 4
         /\ IF Try(cfg, Order[n]) = "ok"
            THEN scheme' = Order[n] /\ phase' = "nested" /\ UNCHANGED <<errors, n>>
            ELSE errors' = Append(errors, Order[n]) /\ n' = n + 1 /\ UNCHANGED <<scheme, phase>>
         /\ UNCHANGED cfg
GiveUp == phase = "probe" /\ n > 4 /\ phase' = "error" /\ UNCHANGED <<cfg, n, scheme, errors>>

\* partitions that hold a disklabel are opened; the scheme becomes BSD
Nested == /\ phase = "nested"
          /\ CASE scheme = "MBR" /\ cfg.bsdp = "bad" -> phase' = "error" /\ UNCHANGED scheme
               [] scheme = "MBR" /\ cfg.bsdp = "good" -> phase' = (IF cfg.ee THEN "error" ELSE "done") /\ scheme' = "BSD"
               [] scheme = "GPT" /\ cfg.bsdp = "bad" -> phase' = "error" /\ UNCHANGED scheme
               [] scheme = "GPT" /\ cfg.bsdp = "good" -> phase' = "done" /\ scheme' = "BSD"
               [] OTHER -> UNCHANGED scheme /\ phase' = IF scheme = "MBR" /\ cfg.ee THEN "error" ELSE "done"
          /\ UNCHANGED <<cfg, n, errors>>
\* nothing but these states is an end
End == phase \in {"done", "error"} /\ UNCHANGED vars
Next == Probe \/ GiveUp \/ Nested \/ End
Spec == Init /\ [][Next]_vars

Final == phase \in {"done", "error"}
\* the verdict, declaratively
GptDisk(c) == IsMbr(c) /\ c.ee /\ c.one = "gpt"
Verdict(c) ==
    CASE IsMbr(c) /\ c.bsdp = "bad" -> "error"
      [] IsMbr(c) /\ c.bsdp = "good" -> IF c.ee /\ ~GptDisk(c) THEN "error" ELSE "BSD"
      [] IsMbr(c) /\ c.bsdp = "no" /\ GptDisk(c) -> "GPT"
      [] IsMbr(c) /\ c.bsdp = "no" /\ ~GptDisk(c) -> IF c.ee THEN "error" ELSE "MBR"
      [] ~IsMbr(c) /\ c.er /\ c.one = "apm" -> "APM"
      [] ~IsMbr(c) /\ c.one \in {"bsd32", "bsd64"} -> "BSD"
      [] OTHER -> "error"
VerdictExact == Final => (IF phase = "error" THEN "error" ELSE scheme) = Verdict(cfg)
SerialOnlyMbr == phase = "done" /\ scheme = "MBR" => IsMbr(cfg)

Emit == Final => PrintT("@@" \o ToJson([cfg |-> cfg, verdict |-> Verdict(cfg)]))
=============================================================================
