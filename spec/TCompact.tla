------------------------------ MODULE TCompact ------------------------------
(***************************************************************************)
(* C29: compression goes on until nothing is left to do, and pays off.     *)
(* A song comes as its voices, each a word of numbers: equal commands have *)
(* equal numbers, loop calls are 0, and commands that compression may pass *)
(* over (ties and slides) are negative.  The voices are walked position by *)
(* position; a passage of four plain commands may not have been there      *)
(* before, unless the two overlap.  total and raw count the commands of    *)
(* all sequences with compression on and off; calls those calls that are   *)
(* there with compression off.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Songs == D.songs
Body == 4
VARIABLES cid, vi, i, err
vars == <<cid, vi, i, err>>
V == Songs[cid].voices

Init == cid \in 1..Len(Songs) /\ vi = 0 /\ i = 0 /\ err = ""

PlainAt(w, k) == k + Body - 1 <= Len(w) /\ \A j \in 0..(Body - 1) : w[k + j] > 0
Same(w, k, x, m) == m + Body - 1 <= Len(x) /\ \A j \in 0..(Body - 1) : w[k + j] = x[m + j]
\* was the passage at position k of voice n there before?
Before(n, k) ==
  \/ \E u \in 1..(n - 1) : \E m \in 1..Len(V[u]) : Same(V[n], k, V[u], m)
  \/ \E m \in 1..(k - Body) : Same(V[n], k, V[n], m)

Start == /\ vi = 0 /\ err = ""
         /\ err' = (IF Songs[cid].calls > 0 THEN "loop calls with compression off"
                    ELSE IF Songs[cid].total > Songs[cid].raw THEN "more commands than with compression off" ELSE "")
         /\ vi' = 1 /\ i' = 1 /\ UNCHANGED cid
Walk == /\ vi \in 1..Len(V) /\ err = "" /\ i <= Len(V[vi])
        /\ err' = (IF PlainAt(V[vi], i) /\ Before(vi, i)
                   THEN "passage at command " \o ToString(i) \o " of voice " \o ToString(vi) \o " is there twice" ELSE "")
        /\ i' = i + 1 /\ UNCHANGED <<cid, vi>>
NextVoice == /\ vi \in 1..Len(V) /\ err = "" /\ i > Len(V[vi])
             /\ vi' = vi + 1 /\ i' = 1 /\ UNCHANGED <<cid, err>>
Finish == /\ vi = Len(V) + 1 /\ err = "" /\ vi > 0 /\ i = 1 /\ i' = 0 /\ UNCHANGED <<cid, vi, err>>
          /\ PrintT(<<"@", cid, Songs[cid].raw, Songs[cid].total>>)
Done == (err # "" \/ (vi > Len(V) /\ i = 0)) /\ UNCHANGED vars
Next == Start \/ Walk \/ NextVoice \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Compact == err = ""
=============================================================================
