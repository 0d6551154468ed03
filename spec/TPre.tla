------------------------------- MODULE TPre --------------------------------
(***************************************************************************)
(* C23: before its first note, tie or rest every voice of a built song     *)
(* sets its channel volume, and the first voice also the percussion base   *)
(* and the global volume; a called loop sequence adds none of its own.     *)
(* The voices are executed by the sound driver up to that point.           *)
(***************************************************************************)
EXTENDS RomImage, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Mems == D.mems
VARIABLES cid, ph, vi, v, seen, err
vars == <<cid, ph, vi, v, seen, err>>
C == Cases[cid]
Mem1 == Mems[C.mem]
\* the part that is looked at
Part == IF "part" \in DOMAIN C THEN C.part ELSE 1
Starts == ActiveVoicesOf(Mem1, C.slot, Part)
IdleVoice == [VoiceInit(0) EXCEPT !.st = "idle"]

Init == /\ cid \in 1..Len(Cases) /\ ph = "next" /\ vi = 0 /\ v = IdleVoice
        /\ seen = {} /\ err = ""
NextVoice ==
  /\ ph = "next" /\ vi < Len(Starts)
  /\ vi' = vi + 1 /\ v' = VoiceInit(Starts[vi + 1]) /\ seen' = {} /\ ph' = "run"
  /\ UNCHANGED <<cid, err>>
VolOps == {229, 237, 250}       \* global volume, channel volume, percussion base
Level(op) == IF op = 250 THEN 25 ELSE 200
Need == IF vi = 1 THEN VolOps ELSE {237}
Step ==
  /\ ph = "run"
  /\ LET r == VStep(Mem1, v) IN
     /\ v' = r.v
     /\ seen' = IF r.e.k = "cmd" /\ r.e.op \in VolOps THEN seen \cup {r.e.op} ELSE seen
     /\ err' = IF r.e.k = "err" THEN r.e.why
               \* the first setting is the ROM's; the song's own come after it
               ELSE IF r.e.k = "cmd" /\ r.e.op \in Need \ seen /\ r.e.a # <<Level(r.e.op)>>
               THEN "a voice starts with other volumes"
               ELSE IF r.e.k \in {"note", "tie", "rest"} /\ ~ Need \subseteq seen
               THEN "a voice starts with undefined volumes" ELSE ""
     /\ ph' = IF err' # "" THEN "bad" ELSE IF r.e.k \in {"note", "tie", "rest", "end"} THEN "next" ELSE "run"
  /\ UNCHANGED <<cid, vi>>
\* C.plain: the song itself has no volume commands
Bodies == UNION {Scan(Mem1, Starts[i]).calls : i \in 1..Len(Starts)}
RECURSIVE Lead(_)
Lead(pc) == LET x == Rd(Mem1, pc) IN IF x \in VolOps THEN 1 + Lead(pc + 2) ELSE 0
Finish ==
  /\ ph = "next" /\ vi = Len(Starts)
  /\ err' = IF C.plain /\ \E b \in Bodies : Lead(b) > 0 THEN "a loop sequence sets a volume" ELSE ""
  /\ ph' = IF err' = "" THEN "done" ELSE "bad"
  /\ (err' = "" => PrintT(<<"@", cid, vi, Cardinality(Bodies)>>))
  /\ UNCHANGED <<cid, vi, v, seen>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == NextVoice \/ Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Held == err = ""
=============================================================================
