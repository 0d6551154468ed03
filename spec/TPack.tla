------------------------------- MODULE TPack -------------------------------
(***************************************************************************)
(* C16: a build is refused for space exactly when some piece does not fit. *)
(* The pieces of a bank's songs (song header with part, voice or loop      *)
(* sequence) are read from a build into a ROM with plenty of space; they   *)
(* are then laid out in order into areas of other sizes, and the outcome   *)
(* of the real builds with those sizes is compared.                        *)
(***************************************************************************)
EXTENDS RomImage, SequencesExt, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases

VARIABLES cid, ph, todo, run, i, off, area, err
vars == <<cid, ph, todo, run, i, off, area, err>>
C == Cases[cid]

RECURSIVE AllPieces(_, _, _)
AllPieces(mem, n, k) ==
  IF k = 0 THEN {} ELSE Pieces(mem, n) \cup AllPieces(mem, n + 1, k - 1)
\* header and parts are one piece
Sizes ==
  LET ps == {p \in AllPieces(C.mem, First[C.bank], Count[C.bank]) : p.k # "part"}
      ord == SetToSortSeq(ps, LAMBDA p, q : p.lo < q.lo)
  IN [j \in 1..Len(ord) |-> ord[j].hi - ord[j].lo + (IF ord[j].k = "header" THEN 16 * PartsFrom(C.mem, ord[j].lo) ELSE 0)]

Init == /\ cid \in 1..Len(Cases) /\ ph = "load" /\ todo = <<>> /\ run = 1
        /\ i = 1 /\ off = 0 /\ area = "main" /\ err = ""

Load == /\ ph = "load" /\ todo' = Sizes /\ off' = TableEnd[C.bank] /\ ph' = "place"
        /\ UNCHANGED <<cid, run, i, area, err>>

Size(a) == IF a = "main" THEN C.runs[run].main ELSE C.runs[run].over
Place ==
  /\ ph = "place" /\ i <= Len(todo)
  /\ IF off + todo[i] <= Size(area) THEN off' = off + todo[i] /\ i' = i + 1 /\ UNCHANGED <<area, ph>>
     ELSE IF area = "main" THEN area' = "over" /\ off' = 0 /\ UNCHANGED <<i, ph>>
     ELSE ph' = "refused" /\ UNCHANGED <<i, off, area>>
  /\ UNCHANGED <<cid, todo, run, err>>

\* all pieces are placed; the song table is in the main area
Placed == ph = "place" /\ i > Len(todo)
Fit == Placed /\ TableEnd[C.bank] <= C.runs[run].main
Judge ==
  /\ Placed \/ ph = "refused"
  /\ err' = IF Fit /\ C.runs[run].outcome # "ok" THEN "songs that fit are refused"
            ELSE IF ~ Fit /\ C.runs[run].outcome # "error" THEN "songs that do not fit are not refused" ELSE ""
  /\ PrintT(<<"!", cid, run, IF Fit THEN 1 ELSE 0>>)
  /\ ph' = IF err' # "" THEN "bad" ELSE IF run = Len(C.runs) THEN "fin" ELSE "place"
  /\ run' = IF ph' = "place" THEN run + 1 ELSE run
  /\ i' = 1 /\ off' = TableEnd[C.bank] /\ area' = "main"
  /\ UNCHANGED <<cid, todo>>
Finish == /\ ph = "fin" /\ ph' = "done" /\ PrintT(<<"@", cid, Len(todo), run>>)
          /\ UNCHANGED <<cid, todo, run, i, off, area, err>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == Load \/ Place \/ Judge \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Held == err = ""
=============================================================================
