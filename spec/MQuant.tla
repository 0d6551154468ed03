------------------------------- MODULE MQuant -------------------------------
(***************************************************************************)
(* Design model of turning MIDI times into driver ticks on one voice.  A   *)
(* beat has TPB MIDI ticks and 24 driver ticks.  Gaps and notes of any of  *)
(* the lengths Ds follow each other without end; the voice keeps the MIDI  *)
(* time up to which it has written, and the part of a MIDI tick that was   *)
(* lost on the way (drift, in 24ths).  Rests are rounded down, notes up,   *)
(* each measured from what is written already; drift worth a driver tick   *)
(* is taken back from the next length that can spare it.                   *)
(* The variables are differences, so the model is finite although songs    *)
(* are not: checked for every reachable state is that notes start and end  *)
(* within the tolerance of C05, settings are written within that of C12,   *)
(* and the song can be closed within that of C06.                          *)
(* BUG: "reset" takes the present as written (the remainder is lost);      *)
(* "nodrift" never takes drift back; "up" rounds rests up; "down" rounds   *)
(* notes down; "fresh" measures a note from its own start.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS TPBs, Ds, MaxEv, BUG, EMIT

VARIABLES tpb,
          lag,      \* MIDI ticks between what is written and now
          drift,    \* lost 24ths of a MIDI tick
          err,      \* driver time minus MIDI time, in 24ths of a MIDI tick
          last,     \* what the last step did: "note", "mark", "start"
          serr,     \* err at the start of the last note
          evs
vars == <<tpb, lag, drift, err, last, serr, evs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Tol == IF tpb % 24 = 0 THEN 1 ELSE 2

\* writes a length of n MIDI ticks
Length(n, up, d) ==
  LET q == IF up THEN (24 * n + tpb - 1) \div tpb ELSE (24 * n) \div tpb
      d1 == d + ((q * tpb) % 24)
      c == IF BUG = "nodrift" THEN 0 ELSE Min(d1 \div tpb, Max(q - (IF up THEN 1 ELSE 0), 0))
  IN [q |-> q - c, ticks |-> (q * tpb) \div 24, drift |-> d1 - c * tpb]

\* everything up to now (g ticks later) is written as a rest
Rest(g) ==
  LET w == IF lag + g > 0 THEN Length(lag + g, BUG = "up", drift) ELSE [q |-> 0, ticks |-> 0, drift |-> drift]
  IN [lag |-> IF BUG = "reset" THEN Min(lag + g, 0) ELSE lag + g - w.ticks, drift |-> w.drift,
      err |-> err + w.q * tpb - 24 * g]

Log(e) == IF EMIT THEN Append(evs, e) ELSE evs

Note(g, l) ==
  /\ 24 * l >= tpb                   \* a driver tick at least
  /\ LET r == Rest(g)
         w == Length(Max(IF BUG = "fresh" THEN l ELSE l + r.lag, 1), BUG # "down", r.drift)
         q == IF BUG = "down" THEN Max(w.q, 1) ELSE w.q
     IN /\ lag' = r.lag + l - w.ticks /\ drift' = w.drift
        /\ serr' = r.err /\ err' = r.err + q * tpb - 24 * l
  /\ last' = "note" /\ evs' = Log(<<1, g, l>>)

\* a setting between two notes
Mark(g) ==
  /\ LET r == Rest(g) IN lag' = r.lag /\ drift' = r.drift /\ err' = r.err
  /\ last' = "mark" /\ evs' = Log(<<0, g, 0>>) /\ UNCHANGED serr

Init == /\ tpb \in TPBs /\ lag = 0 /\ drift = 0 /\ err = 0 /\ last = "start" /\ serr = 0 /\ evs = <<>>
Step == /\ Len(evs) < MaxEv
        /\ \E g \in Ds \cup {0} : Mark(g) \/ \E l \in Ds : Note(g, l)
        /\ UNCHANGED tpb
Emit == EMIT /\ Len(evs) = MaxEv /\ PrintT(<<"@", ToString(<<tpb, evs>>)>>) /\ UNCHANGED vars
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

Within(x) == x < Tol * tpb /\ -x < Tol * tpb
StartsInTime == last = "note" => Within(serr)
EndsInTime == last = "note" => Within(err)
MarksInTime == last = "mark" => Within(err)
ClosesInTime == \A g \in Ds \cup {0} : Within(Rest(g).err)
=============================================================================
