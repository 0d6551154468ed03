------------------------------- MODULE MAlloc -------------------------------
(***************************************************************************)
(* Design model of playing channels on voices.  Channels 1 and 2 have a    *)
(* base voice (1 and 2, or both voice 1 when they share it; sharing        *)
(* channels never sound together); voice 3 is nobody's own.  A note takes  *)
(* its channel's base voice, or a voice nobody owns if that one sounds,    *)
(* and is refused if there is none.  A program change goes to the voices   *)
(* on which its channel sounds, and to the base voice unless another       *)
(* channel sounds there; a voice that is behind gets the channel's program *)
(* before a note starts.                                                   *)
(* Checked: a voice plays one note at a time (C07, C08), every note that   *)
(* should sound does (C07), a note is refused only when all voices it may  *)
(* use sound (C08), every note sounds with a program its own channel had   *)
(* when it started or got while it sounded (C10).                          *)
(* BUG: "stale" forgets that a voice got a program while sounding;         *)
(* "noresend" sends programs to the base voice only; "intrude" changes the *)
(* base voice while another channel sounds there; "leak" keeps the voice   *)
(* of a note that is struck again; "merge" puts a chord on one voice.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxEv, BUG, EMIT

Chans == {1, 2}
Keys == {1, 2}
Progs == {1, 2}
Voices == {1, 2, 3}

VARIABLES share,    \* the channels share voice 1
          want,     \* sounding notes: <<channel, key>> -> programs allowed
          on,       \* <<channel, key>> -> voice
          prog,     \* channel -> program, 0: never set
          vprog,    \* voice -> program in force
          known,    \* voice -> program the tool remembers for it
          start,    \* the channels set program 1 before the first note (1) or not (0)
          evs, refused
vars == <<share, want, on, prog, vprog, known, start, evs, refused>>

Base(c) == IF share THEN 1 ELSE c
Own == {Base(c) : c \in Chans}
Busy(f) == {f[x] : x \in DOMAIN f}
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Log(e) == IF EMIT THEN Append(evs, e) ELSE evs

Init == /\ share \in BOOLEAN
        /\ want = <<>> /\ on = <<>> /\ prog \in {[c \in Chans |-> 0], [c \in Chans |-> 1]}
        /\ vprog = [v \in Voices |-> 0] /\ known = [v \in Voices |-> 0]
        /\ start = prog[1] /\ evs = <<>> /\ refused = <<>>

On(c, n) ==
  /\ share => \A x \in DOMAIN want : x[1] = c
  /\ n = 2 => <<c, 1>> \in DOMAIN want        \* the keys are interchangeable
  /\ LET again == {x \in DOMAIN on : x = <<c, n>>}
         f == IF BUG = "leak" THEN on ELSE Without(on, again)
         free == Voices \ Busy(f)
         spare == IF BUG = "merge" THEN Voices \ Own ELSE free \ Own
         v == IF Base(c) \in free THEN Base(c) ELSE IF spare = {} THEN 0 ELSE Min(spare)
         send == v # 0 /\ prog[c] # 0 /\ known[v] # prog[c] /\ (BUG # "noresend" \/ v = Base(c))
     IN /\ refused' = IF v = 0 THEN <<c, n>> ELSE <<>>
        /\ on' = IF v = 0 THEN f ELSE With(f, <<c, n>>, v)
        /\ want' = With(Without(want, {<<c, n>>}), <<c, n>>, IF prog[c] = 0 THEN Progs \cup {0} ELSE {prog[c]})
        /\ vprog' = IF send THEN [vprog EXCEPT ![v] = prog[c]] ELSE vprog
        /\ known' = IF send THEN [known EXCEPT ![v] = prog[c]] ELSE known
        /\ UNCHANGED prog
  /\ evs' = Log(<<0, c, n>>)

Off(c, n) ==
  /\ <<c, n>> \in DOMAIN want
  /\ on' = Without(on, {<<c, n>>}) /\ want' = Without(want, {<<c, n>>})
  /\ evs' = Log(<<1, c, n>>)
  /\ UNCHANGED <<prog, vprog, known, refused>>

Prog(c, p) ==
  /\ p # prog[c]
  /\ LET mine == {on[x] : x \in {y \in DOMAIN on : y[1] = c}}
         others == Busy(on) \ mine
         base == IF Base(c) \in others /\ BUG # "intrude" THEN {} ELSE {Base(c)}
         to == (IF BUG = "noresend" THEN {} ELSE mine) \cup base
     IN /\ vprog' = [v \in Voices |-> IF v \in to THEN p ELSE vprog[v]]
        /\ known' = [v \in Voices |-> IF v \in to /\ (BUG = "stale" => v \in base) THEN p ELSE known[v]]
  /\ prog' = [prog EXCEPT ![c] = p]
  /\ want' = [x \in DOMAIN want |-> IF x[1] = c THEN want[x] \cup {p} ELSE want[x]]
  /\ evs' = Log(<<2, c, p>>)
  /\ UNCHANGED <<on, refused>>

Step == /\ Len(evs) < MaxEv /\ refused = <<>>
        /\ \E c \in Chans : (\E n \in Keys : On(c, n) \/ Off(c, n)) \/ (\E p \in Progs : Prog(c, p))
        /\ UNCHANGED <<share, start>>
\* histories are replayed (the notes still sounding are ended then)
Emit == /\ EMIT /\ (refused # <<>> \/ Len(evs) = MaxEv)
        /\ PrintT(<<"@", ToString(<<start, IF share THEN 1 ELSE 0, IF refused # <<>> THEN 1 ELSE 0, evs>>)>>)
        /\ UNCHANGED vars
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

OneNotePerVoice == \A x, y \in DOMAIN on : x # y => on[x] # on[y]
AllSound == refused = <<>> => DOMAIN on = DOMAIN want
NothingLeft == want = <<>> => on = <<>>
OwnProgram == \A x \in DOMAIN on \cap DOMAIN want : vprog[on[x]] \in want[x]
\* the voices the refused note may use are all taken by other notes
RefusedOnlyIfFull ==
  refused # <<>> => (Voices \ Own) \cup {Base(refused[1])} \subseteq {on[x] : x \in DOMAIN on \ {refused}}
\* without the history: the model is finite
State == <<share, want, on, prog, vprog, known, start, refused>>
=============================================================================
