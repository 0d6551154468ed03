------------------------------- MODULE TFake -------------------------------
(***************************************************************************)
(* C21: the fake ROM.  A byte of the fake ROM is the original's byte if it *)
(* belongs to a bank pointer or to the header of a chunk (the zero-length  *)
(* chunk that ends a bank included), and zero otherwise.                   *)
(***************************************************************************)
EXTENDS RomImage, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Images == D.images

VARIABLES cid, ph, w, keep, n, err
vars == <<cid, ph, w, keep, n, err>>
C == Cases[cid]
Old == Images[C.before]
New == Images[C.after]

Init == cid \in 1..Len(Cases) /\ ph = "find" /\ w = 1 /\ keep = {} /\ n = 0 /\ err = ""

Header(c) == {c.at, c.at + 1, c.at + 2, c.at + 3}
Find ==
  /\ ph = "find"
  /\ keep' = UNION {{Pc(b), Pc(b + 4), Pc(b + 8)} : b \in {C.bases[i] : i \in 1..3}}
     \cup UNION {LET ch == Chunks(Old, C.bases[i]) IN UNION {Header(ch[j]) : j \in 1..Len(ch)} : i \in 1..3}
  /\ err' = IF C.outcome # "ok" THEN "no fake ROM is made"
            ELSE IF C.size # C.size2 THEN "the size differs"
            ELSE IF Len(C.nonzero) > 0 THEN "a byte outside the banks is not zero" ELSE ""
  /\ ph' = IF err' = "" THEN "scan" ELSE "bad"
  /\ UNCHANGED <<cid, w, n>>

Scan1 ==
  /\ ph = "scan" /\ w <= Len(Old)
  /\ LET o == Old[w]  f == New[w] IN
     err' = IF \E i \in 1..Len(o.d) : f.d[i] # (IF o.at + i - 1 \in keep THEN o.d[i] ELSE 0)
            THEN "a byte is neither zero nor part of a pointer or header" ELSE ""
  /\ n' = n + Len(Old[w].d)
  /\ ph' = IF err' = "" THEN "scan" ELSE "bad"
  /\ w' = w + 1 /\ UNCHANGED <<cid, keep>>
Finish == /\ ph = "scan" /\ w > Len(Old) /\ ph' = "done" /\ PrintT(<<"@", cid, n>>)
          /\ UNCHANGED <<cid, w, keep, n, err>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == Find \/ Scan1 \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Held == err = ""
=============================================================================
