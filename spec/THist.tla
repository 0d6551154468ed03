------------------------------- MODULE THist -------------------------------
(***************************************************************************)
(* C15, C18: histories of operations on one ROM file.  Images of the ROM   *)
(* are numbered; equal numbers mean equal bytes (0: there is no file).     *)
(* A step records how an operation ended and the image it left, and, for   *)
(* comparison, how the same operation ends on the ROM as it was at first,  *)
(* without limits, and the image that gives.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
\* pairs of images whose 34 slots have been shown to play the same (TTwin)
Same == {<<D.same[i][1], D.same[i][2]>> : i \in 1..Len(D.same)}

VARIABLES cid, ph, pos, file, want, err
vars == <<cid, ph, pos, file, want, err>>
C == Cases[cid]

Init == /\ cid \in 1..Len(Cases) /\ ph = "run" /\ pos = 1 /\ err = ""
        /\ file = Cases[cid].first      \* image in the file
        /\ want = 0                     \* reference image of the last successful operation

Step ==
  /\ ph = "run" /\ pos <= Len(C.steps)
  /\ LET s == C.steps[pos] IN
     /\ err' = IF s.outcome # "ok" /\ s.img # file THEN "a failed operation changed the ROM"
               ELSE IF s.outcome = "ok" /\ s.mustfail THEN "an impossible operation reports success"
               ELSE IF s.outcome = "ok" /\ s.full # 0 /\ s.img # s.full THEN "success is reported but not everything is written"
               ELSE IF s.outcome = "hang" THEN "the operation does not end"
               ELSE IF s.refout # "" /\ (s.refout = "ok") # (s.outcome = "ok")
               THEN "what was built before decides whether the operation succeeds"
               ELSE IF s.refout # "" /\ s.outcome = "ok" /\ s.img # s.ref /\ <<s.img, s.ref>> \notin Same
               THEN "what was built before is heard"
               ELSE ""
     /\ file' = s.img
     /\ want' = IF s.outcome = "ok" THEN s.ref ELSE want
     /\ ph' = IF err' = "" THEN "run" ELSE "bad"
  /\ pos' = pos + 1 /\ UNCHANGED cid
Finish ==
  /\ ph = "run" /\ pos > Len(C.steps)
  \* the slots play what the last successful operation assigned
  /\ err' = IF want # 0 /\ file # want /\ <<file, want>> \notin Same
            THEN "the ROM does not play what the last successful operation built" ELSE ""
  /\ ph' = IF err' = "" THEN "done" ELSE "bad"
  /\ (err' = "" => PrintT(<<"@", cid, Len(C.steps), Cardinality({i \in 1..Len(C.steps) : C.steps[i].outcome = "ok"})>>))
  /\ UNCHANGED <<cid, pos, file, want>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Held == err = ""
=============================================================================
