------------------------------- MODULE TPorta -------------------------------
(***************************************************************************)
(* C22: portamento.  The MIDI file is performed with its portamento        *)
(* controllers (65 on/off, 5 and 37 time), which tells for every note      *)
(* whether it is reached by a slide, how long the slide takes, and whether *)
(* it is attacked.  The driver then executes the song in the ROM; a slide  *)
(* is the driver's command F9 (delay, length, pitch) after the previous    *)
(* note, followed by a tie for the length of the new note.                 *)
(* Voices may be shared between channels and channels may play several     *)
(* notes at a time; no two channels have a pitch in common, so a note is   *)
(* known by its pitch.                                                     *)
(***************************************************************************)
EXTENDS MidiPerf, NspcDriver, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Mems == D.mems
VARIABLES cid, ph,
          pf,       \* performance
          pt,       \* portamento state of the channels
          poly,     \* channels that play several notes at a time
          sl,       \* for every performed note: how it is reached
          by,       \* pitch -> performed notes of that pitch, in start order
          nx,       \* pitch -> how many of them have been heard
          vs,       \* the driver's voices
          n,        \* notes heard
          err
vars == <<cid, ph, pf, pt, poly, sl, by, nx, vs, n, err>>
C == Cases[cid]
Mem == Mems[C.mem]
TPB == C.tpb
Tol == IF TPB % 24 = 0 THEN 1 ELSE 2
Near(tick, midi) == LET x == tick * TPB - midi * 24 IN x < Tol * TPB /\ -x < Tol * TPB
SlideOp == 249

Init == /\ cid \in 1..Len(Cases) /\ ph = "perform" /\ pf = PerfInit(Cases[cid].tracks)
        /\ pt = [c \in 0..15 |-> [on |-> FALSE, hi |-> 0, lo |-> 0]]
        /\ poly = {} /\ sl = <<>> /\ by = <<>> /\ nx = <<>> /\ vs = <<>> /\ n = 0 /\ err = <<>>

\* a setting that is sent to the driver exactly at this time; on a shared voice also another channel's
Setting(c, t) ==
  \E i \in 1..Len(C.tracks) : \E j \in 1..Len(C.tracks[i]) :
    LET e == C.tracks[i][j] IN
    e.t = t /\ (e.k = "tempo" \/ ((e.c = c \/ C.shared) /\ (e.k = "pc" \/ (e.k = "cc" /\ e.a = 7))))

\* driver ticks the slide takes, at most 127
Ticks(p) == LET x == CeilDiv((p.hi * 256 + p.lo) * 24, TPB) IN IF x > 127 THEN 127 ELSE x

\* a note starting now: whether its channel slides, how long, and the channel's note before it
Reached(e) ==
  LET before == {i \in 1..Len(pf.notes) : pf.notes[i].c = e.c}
      p == pt[e.c]
  IN [on |-> p.on, len |-> Ticks(p), set |-> p.on /\ Setting(e.c, e.t),
      prev |-> IF before = {} THEN 0 ELSE CHOOSE i \in before : \A j \in before : j <= i]

Perform ==
  /\ ph = "perform" /\ PerfPending(C.tracks, pf) # {}
  /\ LET e == PerfHead(C.tracks, pf, PerfNext(C.tracks, pf)) IN
     /\ pf' = PerfStep(C.tracks, pf)
     /\ sl' = IF e.k = "on" THEN Append(sl, Reached(e)) ELSE sl
     /\ poly' = IF e.k = "on" /\ \E i \in pf.open : pf.notes[i].c = e.c /\ pf.notes[i].n # e.a
                THEN poly \cup {e.c} ELSE poly
     /\ pt' = IF e.k # "cc" THEN pt
              ELSE IF e.a = 65 THEN [pt EXCEPT ![e.c].on = e.b >= 64]
              ELSE IF e.a = 5 THEN [pt EXCEPT ![e.c].hi = e.b]
              ELSE IF e.a = 37 THEN [pt EXCEPT ![e.c].lo = e.b] ELSE pt
  /\ UNCHANGED <<cid, ph, by, nx, vs, n, err>>

NoSlide == <<>>
StartPlay ==
  /\ ph = "perform" /\ PerfPending(C.tracks, pf) = {}
  /\ ph' = "play"
  /\ LET good == {i \in 1..Len(pf.notes) : pf.notes[i].off > pf.notes[i].on}
         ps == {pf.notes[i].p : i \in good}
         idx == [i \in 1..Len(pf.notes) |-> i]
     IN /\ by' = [p \in ps |-> SelectSeq(idx, LAMBDA i : i \in good /\ pf.notes[i].p = p)]
        /\ nx' = [p \in ps |-> 0]
  /\ LET a == ActiveVoices(Mem, C.slot) IN
     vs' = [i \in 1..Len(a) |-> [d |-> VoiceInit(a[i]),
              i |-> 0,                          \* the note sounding, 0: none
              ss |-> 0, sd |-> 0, q |-> 0,      \* its last stretch
              slide |-> NoSlide]]
  /\ UNCHANGED <<cid, pf, pt, poly, sl, n, err>>

EndErr(w) ==
  IF w.i = 0 THEN <<>>
  ELSE LET e == pf.notes[w.i].off
           x == (8 * w.ss + w.sd * w.q) * TPB - 8 * 24 * e
           ok == IF w.q < 7 THEN x < 8 * Tol * TPB /\ -x < 8 * Tol * TPB
                 ELSE (w.ss + w.sd) * TPB > 24 * e - Tol * TPB /\ x < 8 * Tol * TPB
       IN IF ok THEN <<>> ELSE <<"note ends at the wrong time", pf.notes[w.i], w>>

First(x, y) == IF x # <<>> THEN x ELSE y
Heard(p) == IF p \in DOMAIN by /\ nx[p] < Len(by[p]) THEN by[p][nx[p] + 1] ELSE 0
StartErr(j, t, p) ==
  IF j = 0 THEN <<"note that is not in the MIDI file", p, t>>
  ELSE IF ~ Near(t, pf.notes[j].on) THEN <<"note starts at the wrong time", pf.notes[j], t>> ELSE <<>>

\* note j, attacked on a voice that was playing note i, has to be reached by a slide instead:
\* its channel's note before it (on a channel that plays one note at a time), or the note of
\* its channel on this voice, ends where it starts
Must(i, j) ==
  LET k == sl[j].prev
      \* (another drum is another instrument)
      joins(x) == x # 0 /\ pf.notes[x].c = pf.notes[j].c /\ pf.notes[x].off = pf.notes[j].on
                  /\ (pf.notes[j].c = 9 => Snare(9, pf.notes[x].n) = Snare(9, pf.notes[j].n))
  IN sl[j].on /\ ~ sl[j].set /\ ((pf.notes[j].c \notin poly /\ joins(k)) \/ joins(i))
\* note j may be reached by a slide from note i
May(i, j) == sl[j].on /\ (pf.notes[j].on - pf.notes[i].off) * 24 < 2 * TPB

Start(k, w, e, j) ==
  /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.i = j, !.ss = e.t, !.sd = e.d, !.q = e.q, !.slide = NoSlide]]
  /\ nx' = IF j = 0 THEN nx ELSE [nx EXCEPT ![pf.notes[j].p] = @ + 1]
  /\ n' = n + 1

Handle(k, d2, e) ==
  LET w == [vs[k] EXCEPT !.d = d2]
      keep == vs' = [vs EXCEPT ![k] = w] /\ UNCHANGED <<nx, n, err>>
  IN
  CASE e.k = "nil" -> keep
    [] e.k = "cmd" /\ e.op = SlideOp ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.slide = e.a]]
         /\ err' = IF w.i = 0 THEN <<"slide without a note before it", e>>
                   ELSE IF w.slide # NoSlide THEN <<"slide after slide", e>> ELSE <<>>
         /\ UNCHANGED <<nx, n>>
    [] e.k = "cmd" -> keep
    [] e.k = "note" ->
         LET j == Heard(e.n - 104) IN
         /\ Start(k, w, e, j)
         /\ err' = First(EndErr(w), First(StartErr(j, e.t, e.n - 104),
                     IF w.slide # NoSlide THEN <<"slide, then a new attack", e>>
                     ELSE IF Must(w.i, j) THEN <<"no slide to this note", pf.notes[j], e>> ELSE <<>>))
    [] e.k = "tie" /\ w.slide # NoSlide ->
         LET s == w.slide
             j == Heard(s[3] - 104)
             len == IF j = 0 THEN 0 ELSE sl[j].len
         IN /\ Start(k, w, e, j)
            /\ err' = First(EndErr(w), First(StartErr(j, e.t, s[3] - 104),
                        IF ~ May(w.i, j) THEN <<"slide to a note that is to be attacked", pf.notes[j], s>>
                        ELSE IF s[2] # len THEN <<"slide of the wrong length", pf.notes[j], s, len>>
                        ELSE IF s[1] # w.sd - (IF len > w.sd THEN w.sd ELSE len)
                        THEN <<"slide does not end when the note starts", pf.notes[j], s, w.sd>>
                        ELSE IF d2.vel # Level(pf.notes[j].v) THEN <<"wrong velocity", pf.notes[j], d2.vel>> ELSE <<>>))
    [] e.k = "tie" ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.ss = e.t, !.sd = e.d, !.q = e.q]]
         /\ err' = IF w.i = 0 THEN <<"tie without a note", e>> ELSE <<>>
         /\ UNCHANGED <<nx, n>>
    [] e.k \in {"rest", "end"} ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.i = 0, !.slide = NoSlide]]
         /\ err' = First(EndErr(w), IF w.slide # NoSlide THEN <<"slide to nowhere", e>> ELSE <<>>)
         /\ UNCHANGED <<nx, n>>
    [] OTHER -> vs' = [vs EXCEPT ![k] = w] /\ err' = <<e.why>> /\ UNCHANGED <<nx, n>>

Running == {i \in 1..Len(vs) : vs[i].d.st = "run"}
\* the voice whose clock is behind
NextVoice == CHOOSE i \in Running : \A j \in Running : vs[i].d.t < vs[j].d.t \/ (vs[i].d.t = vs[j].d.t /\ i <= j)
Play ==
  /\ ph = "play" /\ err = <<>> /\ Running # {}
  /\ LET k == NextVoice
         s == VStep(Mem, vs[k].d)
     IN Handle(k, s.v, s.e)
  /\ UNCHANGED <<cid, ph, pf, pt, poly, sl, by>>
Total == Cardinality({i \in 1..Len(pf.notes) : pf.notes[i].off > pf.notes[i].on})
Finish ==
  /\ ph = "play" /\ err = <<>> /\ Running = {}
  /\ ph' = "done"
  /\ err' = IF n = Total THEN <<>> ELSE <<"notes missing", n, Total>>
  /\ PrintT(<<"@", cid, n, Cardinality({i \in 1..Len(sl) : sl[i].on /\ sl[i].prev # 0 /\ ~ sl[i].set
                                         /\ pf.notes[i].on = pf.notes[sl[i].prev].off}), Len(vs)>>)
  /\ UNCHANGED <<cid, pf, pt, poly, sl, by, nx, vs, n>>
Done == (ph = "done" \/ err # <<>>) /\ UNCHANGED vars
Next == Perform \/ StartPlay \/ Play \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
C22 == err = <<>>
=============================================================================
