------------------------------- MODULE TPlay --------------------------------
(***************************************************************************)
(* Conformance of converted songs (C05, C06, C07, C10, C11, C12).          *)
(*                                                                         *)
(* One behaviour per song.  First the MIDI file is performed (MidiPerf),   *)
(* which yields what should be heard.  Then the sound driver (NspcDriver)  *)
(* executes the song found in the ROM the real tool has built: all voices  *)
(* run concurrently, in driver time, and every event a voice emits is      *)
(* matched against the expectation.  Deviations are collected in `err`,    *)
(* tagged with the property they break.                                    *)
(***************************************************************************)
EXTENDS MidiPerf, NspcDriver, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Mems == D.mems

VARIABLES cid,      \* the case (song)
          ph,       \* "perform" the MIDI file, "play" the ROM, "done"
          pf,       \* performance of the MIDI file
          by,       \* pitch -> expected notes of that pitch, in start order
          vs,       \* the driver's voices, with what is tracked about them
          nx,       \* pitch -> how many expected notes have been heard
          tx,       \* how many tempo changes have been seen
          err       \* deviations found: <<property, what, ...>>
vars == <<cid, ph, pf, by, vs, nx, tx, err>>

C == Cases[cid]
Mem == Mems[C.mem]
TPB == C.tpb
Tol == IF TPB % 24 = 0 THEN 1 ELSE 2

Near(tick, midi) == LET x == tick * TPB - midi * 24 IN x < Tol * TPB /\ -x < Tol * TPB

NoNote == [i |-> 0, ss |-> 0, sd |-> 0, q |-> 0]
SlideOp == 249          \* pitch slide: the tie after it is the next note (portamento)
NoSlide == <<>>

Init ==
  /\ cid \in 1..Len(Cases)
  /\ ph = "perform"
  /\ pf = PerfInit(Cases[cid].tracks)
  /\ by = <<>> /\ vs = <<>> /\ nx = <<>> /\ tx = 0 /\ err = {}

Perform ==
  /\ ph = "perform" /\ PerfPending(C.tracks, pf) # {}
  /\ pf' = PerfStep(C.tracks, pf)
  /\ UNCHANGED <<cid, ph, by, vs, nx, tx, err>>

Sounding(n) == n.off > n.on
StartPlay ==
  /\ ph = "perform" /\ PerfPending(C.tracks, pf) = {}
  /\ ph' = "play"
  /\ LET good == {i \in 1..Len(pf.notes) : Sounding(pf.notes[i])}
         ps == {pf.notes[i].p : i \in good}
         idx == [i \in 1..Len(pf.notes) |-> i]
     IN /\ by' = [p \in ps |-> SelectSeq(idx, LAMBDA i : i \in good /\ pf.notes[i].p = p)]
        /\ nx' = [p \in ps |-> 0]
  /\ LET a == ActiveVoices(Mem, C.slot) IN
     /\ vs' = [i \in 1..Len(a) |->
                 [d |-> VoiceInit(a[i]), ins |-> -1, vol |-> -1, pend |-> <<>>, cur |-> NoNote, slide |-> NoSlide]]
     /\ err' = IF SongAddr(Mem, C.slot) = -1 \/ PartAddr(Mem, C.slot) = -1
               THEN {<<"C07", "song table or header leads outside the song areas">>} ELSE {}
  /\ UNCHANGED <<cid, pf, tx>>

Running == {i \in 1..Len(vs) : vs[i].d.st = "run"}

\* the voice the driver serves next: the one whose clock is behind
NextVoice == CHOOSE i \in Running :
               \A j \in Running : vs[i].d.t < vs[j].d.t \/ (vs[i].d.t = vs[j].d.t /\ i <= j)

\* the end of the note sounding on a voice, once its last tie is known
EndErr(cur) ==
  IF cur.i = 0 THEN {}
  ELSE LET e == pf.notes[cur.i].off
           far == cur.ss * TPB - 24 * e
           x == 8 * far + cur.sd * cur.q * TPB
           ok == IF far > 300 * TPB \/ -far > 300 * TPB THEN FALSE
                 ELSE IF cur.q < 7 THEN x < 8 * Tol * TPB /\ -x < 8 * Tol * TPB
                 ELSE /\ (cur.ss + cur.sd) * TPB > 24 * e - Tol * TPB
                      /\ x < 8 * Tol * TPB
       IN IF ok THEN {} ELSE {<<"C05", "note ends at the wrong time", pf.notes[cur.i], cur>>}

NoteErr(w, e, vel, i) ==
  LET m == pf.notes[i] IN
     (IF Near(e.t, m.on) THEN {} ELSE {<<"C05", "note starts at the wrong time", m, e>>})
  \cup (IF vel = Level(m.v) THEN {} ELSE {<<"C07", "wrong velocity", m, e>>})
  \cup (IF m.c = 9
        THEN (IF w.ins = (IF Snare(m.c, m.n) THEN SnareInstr ELSE CymbalInstr) THEN {}
             ELSE {<<"C11", "wrong drum sound", m, w.ins>>})
             \cup
             (IF m.vu \/ \E x \in m.vo : w.vol = 2 * x THEN {}
              ELSE {<<"C11", "wrong drum volume", m, w.vol>>})
        ELSE (IF m.pu \/ \E x \in m.pr : w.ins = InstrumentOf(x) THEN {}
              ELSE {<<"C10", "wrong instrument", m, w.ins>>})
             \cup
             (IF m.vu \/ \E x \in m.vo : w.vol = 2 * x THEN {}
              ELSE {<<"C10", "wrong volume", m, w.vol>>}))

\* tempo changes waiting for the note during which they take effect
PendErr(w, i) ==
  {<<"C12", "tempo change at the wrong time", pf.tempos[w.pend[j]]>> : j \in
     {j \in 1..Len(w.pend) :
        ~ (i > 0 /\ pf.notes[i].on <= pf.tempos[w.pend[j]].t /\ pf.tempos[w.pend[j]].t <= pf.notes[i].off)}}

BadPitchCmd == {233, 234, 241, 242, 244}   \* transposes, pitch envelopes, tuning
BadTempoCmd == {232}

\* a slide is followed by the note it leads to
SlideErr(w) == IF w.slide = NoSlide THEN {} ELSE {<<"C07", "pitch slide that leads to no note", w.slide>>}

Handle(k, d2, e) ==
  LET w == [vs[k] EXCEPT !.d = d2] IN
  CASE e.k = "nil" ->
         /\ vs' = [vs EXCEPT ![k] = w] /\ UNCHANGED <<nx, tx, err>>
    [] e.k = "note" \/ (e.k = "tie" /\ w.slide # NoSlide) ->
         LET p == IF e.k = "note" THEN e.n - 104 ELSE w.slide[3] - 104
             i == IF p \in DOMAIN by /\ nx[p] < Len(by[p]) THEN by[p][nx[p] + 1] ELSE 0
         IN /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.pend = <<>>, !.slide = NoSlide, !.cur =
                         IF i = 0 THEN NoNote ELSE [i |-> i, ss |-> e.t, sd |-> e.d, q |-> e.q]]]
            /\ nx' = IF i = 0 THEN nx ELSE [nx EXCEPT ![p] = @ + 1]
            /\ err' = err \cup EndErr(w.cur) \cup PendErr(w, i)
                          \cup (IF e.k = "note" THEN SlideErr(w) ELSE {})
                          \cup (IF i = 0 THEN {<<"C07", "note that is not in the MIDI file", e>>}
                                ELSE NoteErr(w, e, d2.vel, i))
            /\ UNCHANGED tx
    [] e.k = "tie" ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.pend = <<>>,
                     !.cur = IF @.i = 0 THEN @ ELSE [@ EXCEPT !.ss = e.t, !.sd = e.d, !.q = e.q]]]
         /\ err' = err \cup PendErr(w, 0)
         /\ UNCHANGED <<nx, tx>>
    [] e.k = "rest" ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.pend = <<>>, !.slide = NoSlide, !.cur = NoNote]]
         /\ err' = err \cup SlideErr(w) \cup EndErr(w.cur) \cup PendErr(w, 0)
         /\ UNCHANGED <<nx, tx>>
    [] e.k = "end" ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.pend = <<>>, !.slide = NoSlide, !.cur = NoNote]]
         /\ err' = err \cup SlideErr(w) \cup EndErr(w.cur) \cup PendErr(w, 0)
                       \cup (IF Near(e.t, pf.last) THEN {}
                             ELSE {<<"C06", "voice ends at the wrong time", k, e.t, pf.last>>})
         /\ UNCHANGED <<nx, tx>>
    [] e.k = "cmd" /\ e.op = SlideOp ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.slide = e.a]]
         /\ err' = err \cup SlideErr(w)
                       \cup (IF w.cur.i = 0 THEN {<<"C07", "pitch slide without a note before it", e>>} ELSE {})
         /\ UNCHANGED <<nx, tx>>
    [] e.k = "cmd" /\ e.op = 224 ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.ins = e.a[1]]] /\ UNCHANGED <<nx, tx, err>>
    [] e.k = "cmd" /\ e.op = 237 ->
         /\ vs' = [vs EXCEPT ![k] = [w EXCEPT !.vol = e.a[1]]] /\ UNCHANGED <<nx, tx, err>>
    [] e.k = "cmd" /\ e.op = 231 ->
         LET j == tx + 1 IN
         IF j > Len(pf.tempos)
         THEN /\ err' = err \cup {<<"C12", "tempo change that is not in the MIDI file", e>>}
              /\ vs' = [vs EXCEPT ![k] = w] /\ UNCHANGED <<nx, tx>>
         ELSE LET tm == pf.tempos[j]
                  at == IF tm.t > pf.last THEN pf.last ELSE tm.t
              IN /\ err' = err \cup (IF e.a[1] \in TempoBytes(tm.us, C.num, C.den) THEN {}
                                     ELSE {<<"C12", "wrong tempo", tm, e>>})
                 /\ vs' = [vs EXCEPT ![k] = IF Near(e.t, at) THEN w ELSE [w EXCEPT !.pend = Append(@, j)]]
                 /\ tx' = j /\ UNCHANGED nx
    [] e.k = "cmd" ->
         /\ vs' = [vs EXCEPT ![k] = w]
         /\ err' = err \cup (IF e.op \in BadPitchCmd THEN {<<"C07", "command changing the pitch", e>>}
                             ELSE IF e.op \in BadTempoCmd THEN {<<"C12", "command changing the tempo", e>>}
                             ELSE {})
         /\ UNCHANGED <<nx, tx>>
    [] e.k = "err" ->
         /\ vs' = [vs EXCEPT ![k] = w]
         /\ err' = err \cup {<<"C07", e.why>>}
         /\ UNCHANGED <<nx, tx>>

Play ==
  /\ ph = "play" /\ Running # {}
  /\ LET k == NextVoice
         s == VStep(Mem, vs[k].d)
     IN Handle(k, s.v, s.e)
  /\ UNCHANGED <<cid, ph, pf, by>>

Finish ==
  /\ ph = "play" /\ Running = {}
  /\ ph' = "done"
  /\ err' = err
       \cup {<<"C07", "note of the MIDI file is missing", pf.notes[by[p][nx[p] + 1]]>> :
               p \in {q \in DOMAIN by : nx[q] < Len(by[q])}}
       \cup {<<"C11", "percussion hit without its sound", pf.notes[by[p][nx[p] + 1]]>> :
               p \in {q \in DOMAIN by : nx[q] < Len(by[q]) /\ pf.notes[by[q][nx[q] + 1]].c = 9}}
       \cup (IF tx < Len(pf.tempos) THEN {<<"C12", "tempo change missing", pf.tempos[tx + 1]>>} ELSE {})
  /\ PrintT(<<"@", cid, Len(pf.notes), Len(pf.tempos), Len(vs)>>)
  /\ UNCHANGED <<cid, pf, by, vs, nx, tx>>

Done == ph = "done" /\ UNCHANGED vars

Next == Perform \/ StartPlay \/ Play \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

Clean(prop) == \A e \in err : e[1] # prop
C05 == Clean("C05")
C06 == Clean("C06")
C07 == Clean("C07")
C10 == Clean("C10")
C11 == Clean("C11")
C12 == Clean("C12")
=============================================================================
