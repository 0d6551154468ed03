----------------------------- MODULE NspcDriver -----------------------------
(***************************************************************************)
(* The sound driver's side of the contract: how the N-SPC driver of the    *)
(* console executes the bytes of one voice.  A voice is a small machine    *)
(* with a program counter, ONE return slot for loop calls, the duration /  *)
(* velocity / articulation in force and a clock in driver ticks.           *)
(*                                                                         *)
(* A memory is a record [mb, m, ob, o]: base address and bytes of the main *)
(* and of the overflow song area, as loaded into the sound RAM.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL NA == -1

Rd(mem, a) ==
  IF a >= mem.mb /\ a < mem.mb + Len(mem.m) THEN mem.m[a - mem.mb + 1]
  ELSE IF a >= mem.ob /\ a < mem.ob + Len(mem.o) THEN mem.o[a - mem.ob + 1]
  ELSE NA

RdWord(mem, a) ==
  LET l == Rd(mem, a)  h == Rd(mem, a + 1)
  IN IF l = NA \/ h = NA THEN NA ELSE l + 256 * h

\* number of parameter bytes of the control commands E0..FA
ParamCount ==
  << 1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 2, 3,
     1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1 >>

FirstCmd == 224          \* E0
LastCmd  == 250          \* FA
CallCmd  == 239          \* EF
NoteLo == 128            \* 80
NoteHi == 199            \* C7
TieByte == 200           \* C8
RestByte == 201          \* C9

VoiceInit(addr) ==
  [st |-> "run", pc |-> addr, ret |-> 0, beg |-> 0, cnt |-> 0, inl |-> FALSE,
   t |-> 0, dur |-> 0, vel |-> NA, q |-> NA]

\* observable events; k = "nil" marks an internal step
NilEv == [k |-> "nil"]
ErrEv(why) == [k |-> "err", why |-> why]

Fail(v, why) == [v |-> [v EXCEPT !.st = "err"], e |-> ErrEv(why)]

VStep(mem, v) ==
  LET b == Rd(mem, v.pc) IN
  CASE b = NA -> Fail(v, "reads outside the song areas")
    [] b = 0 ->
         IF ~ v.inl
         THEN [v |-> [v EXCEPT !.st = "end"], e |-> [k |-> "end", t |-> v.t]]
         ELSE IF v.cnt > 1
         THEN [v |-> [v EXCEPT !.cnt = @ - 1, !.pc = v.beg], e |-> NilEv]
         ELSE [v |-> [v EXCEPT !.inl = FALSE, !.pc = v.ret], e |-> NilEv]
    [] b >= 1 /\ b < NoteLo ->
         LET c == Rd(mem, v.pc + 1) IN
         IF c = NA THEN Fail(v, "reads outside the song areas")
         ELSE IF c < NoteLo
         THEN [v |-> [v EXCEPT !.dur = b, !.q = c \div 16, !.vel = c % 16, !.pc = @ + 2], e |-> NilEv]
         ELSE [v |-> [v EXCEPT !.dur = b, !.pc = @ + 1], e |-> NilEv]
    [] b >= NoteLo /\ b <= RestByte ->
         IF v.dur = 0 THEN Fail(v, "note, tie or rest without a duration")
         ELSE LET v2 == [v EXCEPT !.t = @ + v.dur, !.pc = @ + 1] IN
              IF b <= NoteHi
              THEN [v |-> v2, e |-> [k |-> "note", n |-> b, t |-> v.t, d |-> v.dur, vel |-> v.vel, q |-> v.q]]
              ELSE IF b = TieByte
              THEN [v |-> v2, e |-> [k |-> "tie", t |-> v.t, d |-> v.dur, q |-> v.q]]
              ELSE [v |-> v2, e |-> [k |-> "rest", t |-> v.t, d |-> v.dur]]
    [] b = CallCmd ->
         LET a == RdWord(mem, v.pc + 1)  n == Rd(mem, v.pc + 3) IN
         IF a = NA \/ n = NA THEN Fail(v, "reads outside the song areas")
         ELSE IF v.inl THEN Fail(v, "loop call inside a called sequence")
         ELSE IF n = 0 THEN Fail(v, "loop call with repeat count 0")
         ELSE IF Rd(mem, a) = NA THEN Fail(v, "loop call outside the song areas")
         ELSE IF Rd(mem, a) = 0 THEN Fail(v, "loop call of an empty sequence")
         ELSE [v |-> [v EXCEPT !.inl = TRUE, !.ret = v.pc + 4, !.beg = a, !.cnt = n, !.pc = a], e |-> NilEv]
    [] b >= FirstCmd /\ b <= LastCmd ->
         LET n == ParamCount[b - FirstCmd + 1]
             a == [i \in 1..n |-> Rd(mem, v.pc + i)]
         IN IF \E i \in 1..n : a[i] = NA THEN Fail(v, "reads outside the song areas")
            ELSE [v |-> [v EXCEPT !.pc = @ + n + 1], e |-> [k |-> "cmd", op |-> b, a |-> a, t |-> v.t]]
    [] OTHER -> Fail(v, "unknown command byte")

(***************************************************************************)
(* Song table, song header and parts: where the voices of a song start.    *)
(* The header lists the parts; a word below 0x100 ends the list.           *)
(***************************************************************************)
\* address in the song table of slot n (0-based over all three banks)
TableAddr(n) == 53248 + 2 * n                 \* 0xD000 + 2 n
SongAddr(mem, n) == RdWord(mem, TableAddr(n))
PartAddr(mem, n) == LET s == SongAddr(mem, n) IN IF s = NA THEN NA ELSE RdWord(mem, s)
\* number of parts listed from address s on
RECURSIVE PartsUpTo(_, _, _)
PartsUpTo(mem, s, most) == IF most = 0 \/ RdWord(mem, s) < 256 THEN 0 ELSE 1 + PartsUpTo(mem, s + 2, most - 1)
PartsFrom(mem, s) == PartsUpTo(mem, s, 100)
NumParts(mem, n) == LET s == SongAddr(mem, n) IN IF s = NA THEN 0 ELSE PartsFrom(mem, s)
PartVoices(mem, p) == [i \in 1..8 |-> RdWord(mem, p + 2 * (i - 1))]
\* the voices of part k of a song, from 1
VoiceAddrsOf(mem, n, k) ==
  IF k > NumParts(mem, n) THEN <<>> ELSE PartVoices(mem, RdWord(mem, SongAddr(mem, n) + 2 * (k - 1)))
VoiceAddrs(mem, n) == VoiceAddrsOf(mem, n, 1)
\* addresses of the voices that play
ActiveVoicesOf(mem, n, k) == SelectSeq(VoiceAddrsOf(mem, n, k), LAMBDA a : a # 0)
ActiveVoices(mem, n) == ActiveVoicesOf(mem, n, 1)
=============================================================================
