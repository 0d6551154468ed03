------------------------------- MODULE MHist -------------------------------
(***************************************************************************)
(* Design model of operations on one ROM: a bank with three slots and an   *)
(* area of cells.  An operation assigns a song (0: silence) to every slot  *)
(* and writes the songs one after another from the start of the area; if   *)
(* they do not fit, or an input is bad, nothing of it reaches the file.    *)
(* Checked: every slot plays what the last successful operation assigned,  *)
(* and success does not depend on what was built before (C15, C18).        *)
(* BUG: "stale" leaves the slot of a silent song as it was; "append"       *)
(* writes behind the data of the build before; "partial" lets the songs    *)
(* before the failing one reach the file.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, BUG, EMIT

NSlots == 3
Area == 6
Ops == {"A", "B", "all", "file", "bad", "big"}
\* songs 1..5; their sizes
SizeOf(s) == CASE s = 0 -> 0 [] s = 1 -> 1 [] s = 2 -> 2 [] s = 3 -> 3 [] s = 4 -> 2 [] s = 5 -> 5
Assign(op) ==
  CASE op = "A" -> <<1, 2, 3>>
    [] op = "B" -> <<4, 1, 2>>
    [] op = "all" -> <<2, 2, 2>>
    [] op = "file" -> <<0, 3, 0>>
    [] op = "bad" -> <<4, -1, 1>>        \* the second input cannot be read
    [] op = "big" -> <<1, 5, 3>>

VARIABLES cells, table, len, hist, want, oks, okNow
vars == <<cells, table, len, hist, want, oks, okNow>>

Init == /\ cells = [i \in 1..Area |-> 0] /\ table = [s \in 1..NSlots |-> 1] /\ len = 0
        /\ hist = <<>> /\ want = <<0, 0, 0>> /\ oks = <<>> /\ okNow = TRUE

\* writes the songs of slots s.. from offset o; returns what the file would be
RECURSIVE Write(_, _, _, _, _)
Write(asg, s, o, c, t) ==
  IF s > NSlots THEN [ok |-> TRUE, cells |-> c, table |-> t, len |-> o]
  ELSE IF asg[s] = -1 \/ o + SizeOf(asg[s]) > Area THEN [ok |-> FALSE, cells |-> c, table |-> t, len |-> o]
  ELSE LET n == SizeOf(asg[s])
           c2 == [i \in 1..Area |-> IF i > o /\ i <= o + n THEN asg[s] ELSE c[i]]
           t2 == IF n = 0 /\ BUG = "stale" THEN t ELSE [t EXCEPT ![s] = IF n = 0 THEN 0 ELSE o + 1]
       IN Write(asg, s + 1, o + n, c2, t2)

Do(op) ==
  LET r == Write(Assign(op), 1, IF BUG = "append" THEN len ELSE 0, cells, table)
      alone == Write(Assign(op), 1, 0, [i \in 1..Area |-> 0], [s \in 1..NSlots |-> 0])
  IN /\ Len(hist) < MaxOps
     /\ hist' = Append(hist, op) /\ oks' = Append(oks, r.ok)
     /\ okNow' = (r.ok = alone.ok)
     /\ IF r.ok \/ BUG = "partial" THEN cells' = r.cells /\ table' = r.table /\ len' = r.len
        ELSE UNCHANGED <<cells, table, len>>
     /\ want' = IF r.ok THEN Assign(op) ELSE want
Emit == /\ EMIT /\ Len(hist) = MaxOps /\ PrintT(<<"@", hist, oks>>) /\ UNCHANGED vars
Next == (\E op \in Ops : Do(op)) \/ Emit
Spec == Init /\ [][Next]_vars

\* what slot s plays: the song found where its table entry points
Plays(s) == IF table[s] = 0 \/ table[s] > Area THEN 0 ELSE cells[table[s]]
LastDecides == \A s \in 1..NSlots : Plays(s) = want[s]
NoMemory == okNow
=============================================================================
