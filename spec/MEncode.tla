------------------------------- MODULE MEncode -------------------------------
(***************************************************************************)
(* Design model of writing a sequence for the sound driver: the duration   *)
(* and the velocity of a command are written only where they change what   *)
(* is in force; a velocity can be written only behind a duration.  A       *)
(* sequence does not know what its caller left in force, and a called      *)
(* sequence leaves its own values to its caller.                           *)
(* The writer goes over a called sequence (1) and the voice (2), then the  *)
(* driver plays the voice; every note must sound with the values the song  *)
(* gives it: the last ones set in its sequence or left by a call (C04).    *)
(* Commands are notes with duration and velocity (0: unset), calls, and    *)
(* control commands ("cmd"), which may carry a duration but sound nothing. *)
(* BUG: "carry" takes the called sequence to start with what the voice     *)
(* began with; "forget" takes the values before a call to be in force      *)
(* after it; "bare" writes a velocity only together with a new duration;   *)
(* "zero" takes an unset duration for a new one; "lose" takes nothing to   *)
(* be in force after the call of a sequence that sets nothing.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxBody, MaxVoice, BUG, EMIT

DurVals == {0, 1, 2}
VelVals == {0, 1, 2}
NoteCmds == {[k |-> "note", d |-> d, v |-> v] : d \in DurVals, v \in VelVals}
SilentCmds == {[k |-> "cmd", d |-> d, v |-> 0] : d \in DurVals}
CallCmds == {[k |-> "call", d |-> n, v |-> 0] : n \in {1, 2}}

VARIABLES body, voice,       \* the song
          ph, out,           \* the bytes written for both sequences
          drv,               \* driver
          exp, i             \* what should sound
vars == <<body, voice, ph, out, drv, exp, i>>

Unknown == 99
\* the first note of a sequence sets everything
Full(c) == c.k = "note" /\ c.d # 0 /\ c.v # 0
\* called sequences sound, or consist of control commands only
Silent(b) == \A j \in 1..Len(b) : b[j].k = "cmd"
Bodies == {b \in UNION {[1..n -> NoteCmds] : n \in 1..MaxBody} : Full(b[1])}
          \cup UNION {[1..n -> SilentCmds] : n \in 1..MaxBody}
Init == /\ body \in Bodies /\ voice = <<>>
        /\ ph = "song" /\ out = <<<<>>, <<>>>> /\ drv = [pc |-> 1] /\ exp = <<>> /\ i = 1

Extend == /\ ph = "song" /\ Len(voice) < MaxVoice
          /\ \E c \in NoteCmds \cup CallCmds : (voice = <<>> => Full(c) \/ (c.k = "call" /\ ~ Silent(body))) /\ voice' = Append(voice, c)
          /\ UNCHANGED <<body, ph, out, drv, exp, i>>

\* what the song means: values in force, notes sounding, calls performed
RECURSIVE Play(_, _, _, _)
Play(s, j, f, acc) ==
  IF j > Len(s) THEN [f |-> f, acc |-> acc]
  ELSE IF s[j].k = "call"
  THEN LET once == Play(body, 1, <<0, 0>>, <<>>) IN
       Play(s, j + 1, <<IF once.f[1] = 0 THEN f[1] ELSE once.f[1], IF once.f[2] = 0 THEN f[2] ELSE once.f[2]>>, acc \o (IF s[j].d = 2 THEN once.acc \o once.acc ELSE once.acc))
  ELSE LET g == <<IF s[j].d = 0 THEN f[1] ELSE s[j].d, IF s[j].v = 0 THEN f[2] ELSE s[j].v>>
       IN Play(s, j + 1, g, IF s[j].k = "cmd" THEN acc ELSE Append(acc, g))

\* bytes of one note and what is in force after it
WriteNote(c, f) ==
  LET nd == IF c.d # 0 \/ BUG = "zero" THEN c.d ELSE f[1]
      wd == nd # f[1] /\ c.d # 0
      wv == c.v # 0 /\ c.v # f[2] /\ (BUG = "bare" => wd)
      bytes == (IF wd \/ wv THEN <<[k |-> "dur", x |-> nd]>> ELSE <<>>)
               \o (IF wv THEN <<[k |-> "vel", x |-> c.v]>> ELSE <<>>) \o <<[k |-> c.k, x |-> 0]>>
  IN [b |-> bytes, f |-> <<nd, IF wv THEN c.v ELSE f[2]>>]
RECURSIVE WriteSeq(_, _, _, _)
WriteSeq(s, j, f, acc) ==
  IF j > Len(s) THEN [f |-> f, b |-> acc]
  ELSE IF s[j].k = "call"
  THEN LET own == WriteSeq(body, 1, <<Unknown, Unknown>>, <<>>).f
           kept == <<IF own[1] = Unknown THEN f[1] ELSE own[1], IF own[2] = Unknown THEN f[2] ELSE own[2]>>
           after == IF BUG = "forget" THEN f ELSE IF BUG = "lose" THEN own ELSE kept
       IN WriteSeq(s, j + 1, after, Append(acc, [k |-> "call", x |-> s[j].d]))
  ELSE LET w == WriteNote(s[j], f) IN WriteSeq(s, j + 1, w.f, acc \o w.b)

Write ==
  /\ ph = "song" /\ voice # <<>>
  /\ LET first == IF BUG = "carry" /\ voice[1].k = "note" THEN <<voice[1].d, voice[1].v>> ELSE <<Unknown, Unknown>>
     IN out' = <<WriteSeq(body, 1, first, <<>>).b, WriteSeq(voice, 1, <<Unknown, Unknown>>, <<>>).b>>
  /\ exp' = Play(voice, 1, <<0, 0>>, <<>>).acc
  /\ drv' = [q |-> 2, pc |-> 1, ret |-> 0, cnt |-> 0, d |-> 0, v |-> 0, st |-> "run"]
  /\ ph' = "drive" /\ i' = 1
  /\ (EMIT => PrintT(<<"@", ToString(<<[j \in 1..Len(body) |-> <<IF body[j].k = "cmd" THEN 2 ELSE 0, body[j].d, body[j].v>>],
                                       [j \in 1..Len(voice) |-> <<IF voice[j].k = "call" THEN 1 ELSE 0, voice[j].d, voice[j].v>>]>>)>>))
  /\ UNCHANGED <<body, voice>>

Drive ==
  /\ ph = "drive" /\ drv.st = "run"
  /\ IF drv.pc > Len(out[drv.q])
     THEN /\ drv' = IF drv.q = 2 THEN [drv EXCEPT !.st = "end"]
                    ELSE IF drv.cnt > 1 THEN [drv EXCEPT !.cnt = @ - 1, !.pc = 1]
                    ELSE [drv EXCEPT !.q = 2, !.pc = drv.ret]
          /\ UNCHANGED i
     ELSE LET x == out[drv.q][drv.pc]
              n == [drv EXCEPT !.pc = @ + 1]
          IN /\ drv' = CASE x.k = "dur" -> IF x.x \in {0, Unknown} THEN [n EXCEPT !.st = "broken"] ELSE [n EXCEPT !.d = x.x]
                         [] x.k = "vel" -> [n EXCEPT !.v = x.x]
                         [] x.k = "call" -> [n EXCEPT !.q = 1, !.pc = 1, !.ret = drv.pc + 1, !.cnt = x.x]
                         [] x.k = "cmd" -> n
                         [] x.k = "note" -> IF i > Len(exp) \/ exp[i] # <<drv.d, drv.v>> THEN [n EXCEPT !.st = "wrong"] ELSE n
             /\ i' = IF x.k = "note" THEN i + 1 ELSE i
  /\ UNCHANGED <<body, voice, ph, out, exp>>
Next == Extend \/ Write \/ Drive
Spec == Init /\ [][Next]_vars

ReadsBack == ph = "drive" => /\ drv.st \in {"run", "end"}
                             /\ drv.st = "end" => i = Len(exp) + 1
=============================================================================
