------------------------------- MODULE TLoop --------------------------------
(***************************************************************************)
(* C02: the loop calls of converted songs are executable by the driver.    *)
(* The static form is checked once per song; then every voice is executed, *)
(* and the machine itself fails on calls within called sequences.          *)
(***************************************************************************)
EXTENDS SongModel, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Songs == D.songs
VARIABLES cid, ph, vi, v, err
vars == <<cid, ph, vi, v, err>>
S == Songs[cid]

Init == /\ cid \in 1..Len(Songs) /\ ph = "form" /\ vi = 0 /\ v = <<>> /\ err = ""
Form == /\ ph = "form"
        /\ IF Executable(S) THEN ph' = "next" /\ UNCHANGED err
           ELSE ph' = "bad" /\ err' = "form of the loop calls"
        /\ UNCHANGED <<cid, vi, v>>
NextVoice == /\ ph = "next" /\ vi < Len(S.voices)
             /\ vi' = vi + 1 /\ v' = SongVoiceInit(S.voices[vi + 1] + 1) /\ ph' = "run"
             /\ UNCHANGED <<cid, err>>
Run == /\ ph = "run"
       /\ LET r == SongStep(S, v, TRUE) IN
          /\ v' = r.v
          /\ IF r.e.k = "err" THEN ph' = "bad" /\ err' = r.e.why
             ELSE ph' = (IF r.e.k = "end" THEN "next" ELSE "run") /\ UNCHANGED err
       /\ UNCHANGED <<cid, vi>>
Finish == /\ ph = "next" /\ vi = Len(S.voices) /\ ph' = "done"
          /\ PrintT(<<"@", cid, vi, Len(S.seqs), LET c == Calls(S) IN IF c = {} THEN 0 ELSE 1>>)
          /\ UNCHANGED <<cid, vi, v, err>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == Form \/ NextVoice \/ Run \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
C02 == ph # "bad"
=============================================================================
