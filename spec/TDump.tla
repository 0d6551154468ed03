-------------------------------- MODULE TDump -------------------------------
(***************************************************************************)
(* What dump_midi shows (C28): every event of every track, in the order of *)
(* the file and with its distance from the event before; and every channel *)
(* event again, channel by channel, at its absolute time, in the order in  *)
(* which it takes effect (note ends, then settings, then note starts, at   *)
(* one tick).  The dump may show more.                                     *)
(*                                                                         *)
(* A case is a file (tracks of [t, k, c, a, b], here with k "meta" and     *)
(* "sysex" too) and the events read back from the dump: `raw` with their   *)
(* distances, `timed` with absolute times.  The machine walks through both *)
(* lists and takes off what it meets.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
VARIABLES cid, phase,  \* "raw", "timed", "done"
          want, have,  \* positions in the list expected and in the list shown
          err
vars == <<cid, phase, want, have, err>>
C == Cases[cid]

Cat(ss) == FlattenSeq(ss)

Distances(t) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.t = @ - (IF i = 1 THEN 0 ELSE t[i - 1].t)]]
RawWant(c) == Cat([i \in 1..Len(c.tracks) |-> Distances(c.tracks[i])])

Prio(e) == IF e.k = "off" \/ (e.k = "on" /\ e.b = 0) THEN 0 ELSE IF e.k = "on" THEN 2 ELSE 1
\* a stable sort by (time, priority)
Before(e, f) == e[1].t < f[1].t \/ (e[1].t = f[1].t /\ (Prio(e[1]) < Prio(f[1]) \/ (Prio(e[1]) = Prio(f[1]) /\ e[2] < f[2])))
OfChannel(c, ch) ==
  LET all == Cat(c.tracks)
      mine == SelectSeq([i \in 1..Len(all) |-> <<all[i], i>>], LAMBDA x : x[1].k \notin {"meta", "sysex"} /\ x[1].c = ch)
      done == SortSeq(mine, Before)
  IN [i \in 1..Len(mine) |-> done[i][1]]
TimedWant(c) == Cat([ch \in 1..16 |-> OfChannel(c, ch - 1)])

\* computed once per case
Wanted == [i \in 1..Len(Cases) |-> [raw |-> RawWant(Cases[i]), timed |-> TimedWant(Cases[i])]]
W == Wanted[cid]

Init == cid \in 1..Len(Cases) /\ phase = "raw" /\ want = 1 /\ have = 1 /\ err = <<>>
List == IF phase = "raw" THEN W.raw ELSE W.timed
Shown == IF phase = "raw" THEN C.raw ELSE C.timed
Step ==
  /\ phase # "done" /\ err = <<>> /\ want <= Len(List)
  /\ IF have > Len(Shown) THEN err' = <<"not shown", phase, List[want], want>> /\ UNCHANGED <<want, have>>
     ELSE /\ have' = have + 1 /\ err' = <<>>
          /\ want' = IF Shown[have] = List[want] THEN want + 1 ELSE want
  /\ UNCHANGED <<cid, phase>>
Turn ==
  /\ phase # "done" /\ err = <<>> /\ want > Len(List)
  /\ phase' = IF phase = "raw" THEN "timed" ELSE "done"
  /\ want' = 1 /\ have' = 1
  /\ (phase = "timed" => PrintT(<<"@", cid, Len(W.raw)>>))
  /\ UNCHANGED <<cid, err>>
Done == (phase = "done" \/ err # <<>>) /\ UNCHANGED vars
Next == Step \/ Turn \/ Done
Spec == Init /\ [][Next]_vars
Shows == err = <<>>
Answered == C.ok
=============================================================================
