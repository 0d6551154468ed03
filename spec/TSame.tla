------------------------------- MODULE TSame --------------------------------
(***************************************************************************)
(* The same music (C26).  Two MIDI files that are performed alike - by     *)
(* MidiPerf, after counting time in the same unit - are one song, however  *)
(* they are written down: the tool must answer both alike.                 *)
(*                                                                         *)
(* A case is a pair of files [tpb, tracks, last channel event kept by the  *)
(* performance] and the answers of the tool (numbers by content; with and  *)
(* without loop compression).  Both files are performed step by step.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, MidiPerf

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
VARIABLES cid, side,   \* 1 and 2 while performing that file, 3 when done
          p, heard,    \* the performance, and that of the first file
          err
vars == <<cid, side, p, heard, err>>
C == Cases[cid]
File == C.files[side]

\* what is heard, with time counted in units common to both files
Heard(q, f) ==
  [notes |-> {[q.notes[i] EXCEPT !.on = @ * f, !.off = IF @ < 0 THEN @ ELSE @ * f] : i \in 1..Len(q.notes)},
   count |-> Len(q.notes),
   tempos |-> [i \in 1..Len(q.tempos) |-> [q.tempos[i] EXCEPT !.t = @ * f]],
   last |-> q.last * f]

Init == /\ cid \in 1..Len(Cases) /\ side = 1 /\ err = <<>>
        /\ p = PerfInit(Cases[cid].files[1].tracks)
        /\ heard = <<>>
Perform ==
  /\ side < 3 /\ PerfPending(File.tracks, p) # {}
  /\ p' = PerfStep(File.tracks, p)
  /\ UNCHANGED <<cid, side, heard, err>>
Turn ==
  /\ side = 1 /\ PerfPending(File.tracks, p) = {}
  /\ heard' = Heard(p, C.files[1].unit)
  /\ side' = 2 /\ p' = PerfInit(C.files[2].tracks)
  /\ UNCHANGED <<cid, err>>
Judge ==
  /\ side = 2 /\ PerfPending(File.tracks, p) = {}
  /\ LET same == heard = Heard(p, C.files[2].unit) IN
     /\ err' = IF ~ same THEN <<"other music">>
               ELSE IF C.answers[1] # C.answers[2] THEN <<"the same music, another answer", C.answers>> ELSE <<>>
     /\ side' = 3 /\ p' = <<>> /\ heard' = <<>>
     /\ PrintT(<<"@", cid, heard.count>>)
  /\ UNCHANGED cid
Done == side = 3 /\ UNCHANGED vars
Next == Perform \/ Turn \/ Judge \/ Done
Spec == Init /\ [][Next]_vars

\* the generator's part: pairs really are the same music
Music == err # <<"other music">>
Same == err = <<>> \/ ~ Music
=============================================================================
