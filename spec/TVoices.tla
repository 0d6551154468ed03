------------------------------ MODULE TVoices -------------------------------
(***************************************************************************)
(* C08, C09: which songs must be converted and which must be refused.      *)
(* The MIDI file is performed; the spec tracks the notes sounding together *)
(* and places them as the statement of C08 says: the first note of a       *)
(* channel on the channel's own voice, every further simultaneous note on  *)
(* a voice no channel uses as its own.                                     *)
(***************************************************************************)
EXTENDS MidiPerf, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
VARIABLES cid, ph, pos, on, maxsim, mono, fits, split, err
vars == <<cid, ph, pos, on, maxsim, mono, fits, split, err>>
C == Cases[cid]
NVoices == 8

\* on: set of <<channel, pitch, voice>>; voice 0 = the channel's own, 1.. = extra voices
Group(c) == {g \in 1..Len(C.partition) : \E k \in 1..Len(C.partition[g]) : C.partition[g][k] = c}

Init == /\ cid \in 1..Len(Cases) /\ ph = "perform"
        /\ pos = [i \in 1..Len(Cases[cid].tracks) |-> 1]
        /\ on = {} /\ maxsim = 0 /\ mono = TRUE /\ fits = TRUE /\ split = TRUE /\ err = ""

P == [pos |-> pos]

Perform ==
  /\ ph = "perform" /\ PerfPending(C.tracks, P) # {}
  /\ LET i == PerfNext(C.tracks, P)
         e == PerfHead(C.tracks, P, i)
         closed == {x \in on : ~ (x[1] = e.c /\ x[2] = e.a)}
     IN /\ pos' = [pos EXCEPT ![i] = @ + 1]
        /\ IF e.k = "off" THEN on' = closed /\ UNCHANGED <<maxsim, mono, fits, split>>
           ELSE IF e.k = "on" THEN
             LET own == \E x \in closed : x[1] = e.c /\ x[3] = 0
                 extra == {x[3] : x \in closed} \ {0}
                 free == {v \in 1..(NVoices - C.nch) : v \notin extra}
                 v == IF ~ own THEN 0 ELSE IF free = {} THEN 99 ELSE CHOOSE v \in free : TRUE
                 nw == closed \cup {<<e.c, e.a, v>>}
             IN /\ on' = nw
                /\ maxsim' = IF Cardinality(nw) > maxsim THEN Cardinality(nw) ELSE maxsim
                /\ mono' = (mono /\ \A x \in closed : x[1] # e.c)
                /\ fits' = (fits /\ C.nch <= NVoices /\ v # 99)
                /\ split' = (split /\ \A x \in closed : x[1] = e.c \/ Group(x[1]) \cap Group(e.c) = {})
           ELSE UNCHANGED <<on, maxsim, mono, fits, split>>
  /\ UNCHANGED <<cid, ph, err>>

MustFail == maxsim > NVoices
MustConvert == (C.nch <= 1 /\ maxsim <= NVoices) \/ (fits /\ ~ MustFail)
\* the witness partition is a sharing of the voices
Shared == /\ mono /\ split /\ Len(C.partition) <= NVoices
          /\ \A c \in {C.chans[i] : i \in 1..Len(C.chans)} : Group(c) # {}

Finish ==
  /\ ph = "perform" /\ PerfPending(C.tracks, P) = {}
  /\ ph' = "done"
  /\ err' = IF MustFail /\ (C.outcome # "error" \/ C.produced) THEN "more than eight simultaneous notes are not refused"
            ELSE IF MustConvert /\ C.outcome # "ok" THEN "a song that fits the voices is refused"
            ELSE IF Shared /\ C.outcome # "ok" THEN "a song whose channels can share voices is refused"
            ELSE ""
  /\ PrintT(<<"@", cid, IF MustFail THEN 1 ELSE 0, IF MustConvert THEN 1 ELSE 0, IF Shared THEN 1 ELSE 0, maxsim>>)
  /\ UNCHANGED <<cid, pos, on, maxsim, mono, fits, split>>
Done == ph = "done" /\ UNCHANGED vars
Next == Perform \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

C08 == err \notin {"more than eight simultaneous notes are not refused", "a song that fits the voices is refused"}
C09 == ph = "done" => (Shared => C.outcome = "ok")
=============================================================================
