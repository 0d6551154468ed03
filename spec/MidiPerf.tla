------------------------------ MODULE MidiPerf ------------------------------
(***************************************************************************)
(* The musician's side of the contract: what a MIDI file says should be    *)
(* heard.  The tracks of a file (absolute ticks) are merged in time and    *)
(* performed event by event; the result is the list of notes with their    *)
(* start, end, velocity and the programs / volumes their channel allows,   *)
(* the list of tempo changes and the time of the last channel event.       *)
(*                                                                         *)
(* A track is a sequence of records [t, k, c, a, b]; k is one of           *)
(*   "on" (a pitch, b velocity > 0), "off" (a pitch), "pc" (a program),    *)
(*   "cc" (a controller, b value), "tempo" (a microseconds per beat),      *)
(*   "chan" (any other channel event), "meta" (anything else).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Prio(e) == IF e.k = "off" THEN 0 ELSE IF e.k = "on" THEN 2 ELSE 1

PerfInit(tracks) ==
  [pos |-> [i \in 1..Len(tracks) |-> 1],
   prog |-> [c \in 0..15 |-> -1], vol |-> [c \in 0..15 |-> -1],
   open |-> {}, notes |-> <<>>, tempos |-> <<>>, last |-> 0]

PerfPending(tracks, p) == {i \in 1..Len(tracks) : p.pos[i] <= Len(tracks[i])}

PerfHead(tracks, p, i) == tracks[i][p.pos[i]]

\* the next event of the merged performance: earliest first; at one tick note
\* ends first, then settings, then note starts; then by track
PerfNext(tracks, p) ==
  LET P == PerfPending(tracks, p)
      Less(i, j) == LET e == PerfHead(tracks, p, i)  f == PerfHead(tracks, p, j) IN
                    e.t < f.t \/ (e.t = f.t /\ (Prio(e) < Prio(f) \/ (Prio(e) = Prio(f) /\ i <= j)))
  IN CHOOSE i \in P : \A j \in P : Less(i, j)

\* pitch as the driver can play it: whole octaves into MIDI 24..95
Fold(n) == IF n < 24 THEN (n % 12) + 24 ELSE IF n > 95 THEN (n % 12) + 84 ELSE n

Snare(c, n) == c = 9 /\ n \in {38, 40}
SoundPitch(c, n) == IF Snare(c, n) THEN 68 ELSE Fold(n)

CloseSet(p, c, n) == {i \in p.open : p.notes[i].c = c /\ p.notes[i].n = n}

ClosePerf(p, c, n, t) ==
  LET S == CloseSet(p, c, n) IN
  IF S = {} THEN p
  ELSE [p EXCEPT !.open = @ \ S,
                 !.notes = [i \in 1..Len(@) |-> IF i \in S THEN [@[i] EXCEPT !.off = t] ELSE @[i]]]

PerfStep(tracks, p0) ==
  LET i == PerfNext(tracks, p0)
      e == PerfHead(tracks, p0, i)
      p == [p0 EXCEPT !.pos[i] = @ + 1,
                      !.last = IF e.k \in {"meta", "tempo"} THEN @ ELSE IF e.t > @ THEN e.t ELSE @]
  IN CASE e.k = "off" -> ClosePerf(p, e.c, e.a, e.t)
       [] e.k = "on" ->
            LET r == ClosePerf(p, e.c, e.a, e.t) IN
            [r EXCEPT !.open = @ \cup {Len(r.notes) + 1},
                      !.notes = Append(@, [c |-> e.c, n |-> e.a, p |-> SoundPitch(e.c, e.a),
                                           v |-> e.b, on |-> e.t, off |-> -1,
                                           pr |-> IF r.prog[e.c] < 0 THEN {} ELSE {r.prog[e.c]},
                                           pu |-> r.prog[e.c] < 0,
                                           vo |-> IF r.vol[e.c] < 0 THEN {} ELSE {r.vol[e.c]},
                                           vu |-> r.vol[e.c] < 0])]
       [] e.k = "pc" ->
            [p EXCEPT !.prog[e.c] = e.a,
                      !.notes = [j \in 1..Len(@) |-> IF j \in p.open /\ @[j].c = e.c
                                                     THEN [@[j] EXCEPT !.pr = @ \cup {e.a}] ELSE @[j]]]
       [] e.k = "cc" /\ e.a = 7 ->
            [p EXCEPT !.vol[e.c] = e.b,
                      !.notes = [j \in 1..Len(@) |-> IF j \in p.open /\ @[j].c = e.c
                                                     THEN [@[j] EXCEPT !.vo = @ \cup {e.b}] ELSE @[j]]]
       [] e.k = "tempo" -> [p EXCEPT !.tempos = Append(@, [t |-> e.t, us |-> e.a])]
       [] OTHER -> p

(***************************************************************************)
(* What the driver should be told                                          *)
(***************************************************************************)
\* General MIDI program -> driver instrument (the tool's own sound assignment)
Instrument ==
  << 24, 24, 24, 24, 24, 24, 24, 24, 14, 14, 14, 14, 14, 14, 14, 14,
     21, 21, 21, 21, 21,  9, 13, 23, 24, 24, 24, 24, 24, 24, 24, 24,
     24, 24, 24, 24, 24, 24, 24, 24,  9,  9,  9,  9,  9,  9, 15,  2,
      9,  9,  9,  9, 21, 21, 21,  9, 17, 11, 18, 17, 18, 18, 18, 18,
     17, 17, 11, 11, 18, 18, 18, 22, 22, 22, 13, 13, 13, 13,  8, 13,
      3,  4, 13,  6,  6,  6,  7,  7,  5,  5,  5, 21,  5,  5,  5,  5,
      1,  1,  1,  1,  1,  1,  1,  1, 24, 24, 24, 24, 24, 18,  9, 18,
     14, 14,  2, 19,  2,  2,  2, 12, 23, 23, 16,  8, 14, 23,  1, 23 >>
InstrumentOf(p) == Instrument[p + 1]
SnareInstr == 19
CymbalInstr == 12

Level(v) == IF v < 8 THEN 1 ELSE v \div 8

CeilDiv(a, b) == (a + b - 1) \div b

\* tempo bytes allowed for a MIDI tempo and a tempo factor num/den: beats per
\* minute rounded up, times the factor, cut off to a whole number, at most 255.
\* Where the exact product is a whole number (or the exact bpm lies within
\* single precision of a whole number) the neighbour below is allowed too.
TempoBytes(us, num, den) ==
  LET up == IF us = 0 THEN 60000000 ELSE CeilDiv(60000000, us)
      bpms == IF us > 0 /\ (60000000 % us) \in 1..4 THEN {up, up - 1} ELSE {up}
      cap(x) == IF x > 255 THEN 255 ELSE IF x < 0 THEN 0 ELSE x
      \* keep within 32 bits: a huge bpm saturates anyway
      val(b) == IF b >= 1000000 THEN {IF num = 0 THEN 0 ELSE 255}
                ELSE {cap((b * num) \div den)} \cup
                     (IF (b * num) % den = 0 THEN {cap((b * num) \div den - 1)} ELSE {})
  IN UNION {val(b) : b \in bpms}
=============================================================================
