------------------------------- MODULE TTwin --------------------------------
(***************************************************************************)
(* Two performances of the same song must be the same (C01, C03, C04,      *)
(* C21).  A side is either a song in a ROM, executed by the sound driver   *)
(* (NspcDriver), or a list of commands (SongModel).  Both sides run voice  *)
(* by voice; each advances to its next observable event and the events     *)
(* are compared:                                                           *)
(*   C01  compressed and uncompressed song, command by command             *)
(*   C03  ROM built with and without compression                           *)
(*   C04  ROM against the list of commands it was built from               *)
(*   C17  song of a manifest slot against the file the manifest names       *)
(*   C21  original and fake ROM                                            *)
(***************************************************************************)
EXTENDS SongModel, NspcDriver, MidiPerf, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Mems == D.mems
Songs == D.songs

VARIABLES cid, ph, vi, a, b, ea, eb, n, tk, err
vars == <<cid, ph, vi, a, b, ea, eb, n, tk, err>>
C == Cases[cid]

Nil == [k |-> "nil"]
\* the part of the song that is compared
Part == IF "part" \in DOMAIN C THEN C.part ELSE 1
\* voices (start addresses or sequence numbers) of a side; silent voices left out
Voices(s) ==
  IF s.kind = "rom" THEN ActiveVoicesOf(Mems[s.mem], s.slot, Part)
  ELSE SelectSeq([i \in 1..Len(Songs[s.song].voices) |-> Songs[s.song].voices[i] + 1],
                 LAMBDA x : x \in 1..Len(Songs[s.song].seqs) /\ Songs[s.song].seqs[x] # <<>>)
\* the voices of the driver a side plays on: a song keeps the order of its part, silent tracks included
Places(s) ==
  IF s.kind = "rom" THEN LET va == VoiceAddrsOf(Mems[s.mem], s.slot, Part) IN {i \in 1..Len(va) : va[i] # 0}
  ELSE {i \in 1..Len(Songs[s.song].voices) :
          LET x == Songs[s.song].voices[i] + 1 IN x \in 1..Len(Songs[s.song].seqs) /\ Songs[s.song].seqs[x] # <<>>}
Start(s, x) == IF s.kind = "rom" THEN VoiceInit(x) ELSE SongVoiceInit(x)
Step(s, v) == IF s.kind = "rom" THEN VStep(Mems[s.mem], v) ELSE SongStep(Songs[s.song], v, C.raw)

(***************************************************************************)
(* The volume preamble a ROM adds to a song (C23) is not part of the song: *)
(* for C04 a voice starts behind the leading volume commands that the ROM  *)
(* has in addition to the song's own.                                      *)
(***************************************************************************)
PreOps == {229, 237, 250}
RECURSIVE LeadRom(_, _)
LeadRom(mem, v) ==
  LET r == VStep(mem, v)
  IN IF r.e.k = "nil" THEN LeadRom(mem, r.v)
     ELSE IF r.e.k = "cmd" /\ r.e.op \in PreOps THEN 1 + LeadRom(mem, r.v) ELSE 0
RECURSIVE LeadSong(_, _)
LeadSong(sg, v) ==
  LET r == SongStep(sg, v, FALSE)
  IN IF r.e.k = "nil" THEN LeadSong(sg, r.v)
     ELSE IF r.e.k = "cmd" /\ r.e.op \in PreOps THEN 1 + LeadSong(sg, r.v) ELSE 0
Skip(x, y) ==
  LET k == LeadRom(Mems[C.a.mem], VoiceInit(x)) - LeadSong(Songs[C.b.song], SongVoiceInit(y))
  IN IF k > 0 THEN 2 * k ELSE 0

StartA(i) ==
  LET x == Voices(C.a)[i] IN
  IF C.skip THEN Start(C.a, x + Skip(x, Voices(C.b)[i])) ELSE Start(C.a, x)

\* C17: a song converted with another tempo factor; C.us are the MIDI file's tempos
Retempo(x) == "us" \in DOMAIN C /\ x.k = "cmd" /\ x.op = 231

\* values a list of commands leaves undetermined (-1) may be anything
Agree(x, y) ==
  \/ x = y /\ ~ Retempo(x)
  \/ /\ Retempo(x) /\ Retempo(y) /\ x.t = y.t /\ tk < Len(C.us)
     /\ x.a[1] \in TempoBytes(C.us[tk + 1], C.num, C.den)
  \/ /\ C.b.kind = "song" /\ x.k = y.k /\ ~ C.raw
     /\ x.k = "note" /\ x = [y EXCEPT !.vel = IF @ = -1 THEN x.vel ELSE @, !.q = IF @ = -1 THEN x.q ELSE @]
  \/ /\ C.b.kind = "song" /\ x.k = y.k /\ ~ C.raw
     /\ x.k = "tie" /\ x = [y EXCEPT !.q = IF @ = -1 THEN x.q ELSE @]

Init ==
  /\ cid \in 1..Len(Cases)
  /\ ph = "start" /\ vi = 0 /\ a = <<>> /\ b = <<>> /\ ea = Nil /\ eb = Nil /\ n = 0 /\ tk = 0 /\ err = <<>>

\* two ROMs: both songs stop after their part, or both restart from their beginning
RomTail(s) ==
  LET m == Mems[s.mem]  at == SongAddr(m, s.slot)  end == at + 2 * NumParts(m, s.slot)  w == RdWord(m, end)
  IN IF w = 255 THEN IF RdWord(m, end + 2) = at THEN "loops" ELSE "jumps" ELSE IF w = 0 THEN "stops" ELSE "broken"

Begin ==
  /\ ph = "start"
  /\ IF C.a.kind = "rom" /\ C.b.kind = "rom" /\ (RomTail(C.a) # RomTail(C.b) \/ RomTail(C.a) = "broken")
     THEN ph' = "bad" /\ err' = <<"song header", RomTail(C.a), RomTail(C.b)>> /\ UNCHANGED <<vi, a, b, ea, eb, n, tk>>
     ELSE IF "parts" \in DOMAIN C /\ NumParts(Mems[C.a.mem], C.a.slot) # C.parts
     THEN ph' = "bad" /\ err' = <<"different number of parts", NumParts(Mems[C.a.mem], C.a.slot), C.parts>>
          /\ UNCHANGED <<vi, a, b, ea, eb, n, tk>>
     ELSE IF Len(Voices(C.a)) # Len(Voices(C.b))
     THEN ph' = "bad" /\ err' = <<"different number of voices", Len(Voices(C.a)), Len(Voices(C.b))>>
          /\ UNCHANGED <<vi, a, b, ea, eb, n, tk>>
     ELSE IF C.b.kind = "song" /\ Places(C.a) # Places(C.b)
     THEN ph' = "bad" /\ err' = <<"other voices play", Places(C.a), Places(C.b)>> /\ UNCHANGED <<vi, a, b, ea, eb, n, tk>>
     ELSE ph' = "next" /\ UNCHANGED <<vi, a, b, ea, eb, n, tk, err>>
  /\ UNCHANGED cid

NextVoice ==
  /\ ph = "next" /\ vi < Len(Voices(C.a))
  /\ vi' = vi + 1
  /\ a' = StartA(vi + 1) /\ b' = Start(C.b, Voices(C.b)[vi + 1])
  /\ ea' = Nil /\ eb' = Nil /\ ph' = "run"
  /\ UNCHANGED <<cid, n, tk, err>>

StepA ==
  /\ ph = "run" /\ ea.k = "nil"
  /\ LET r == Step(C.a, a) IN a' = r.v /\ ea' = r.e
  /\ UNCHANGED <<cid, ph, vi, b, eb, n, tk, err>>
StepB ==
  /\ ph = "run" /\ ea.k # "nil" /\ eb.k = "nil"
  /\ LET r == Step(C.b, b) IN b' = r.v /\ eb' = r.e
  /\ UNCHANGED <<cid, ph, vi, a, ea, n, tk, err>>
Compare ==
  /\ ph = "run" /\ ea.k # "nil" /\ eb.k # "nil"
  /\ IF ea.k = "err" \/ eb.k = "err" \/ ~ Agree(ea, eb)
     THEN ph' = "bad" /\ err' = <<"voice", vi, "first", ea, "second", eb>> /\ UNCHANGED <<ea, eb, n, tk>>
     ELSE /\ ph' = IF ea.k = "end" THEN "next" ELSE "run"
          /\ ea' = Nil /\ eb' = Nil /\ n' = n + 1 /\ tk' = (IF Retempo(ea) THEN tk + 1 ELSE tk) /\ UNCHANGED err
  /\ UNCHANGED <<cid, vi, a, b>>
Finish ==
  /\ ph = "next" /\ vi = Len(Voices(C.a))
  /\ ph' = "done" /\ PrintT(<<"@", cid, vi, n>>)
  /\ UNCHANGED <<cid, vi, a, b, ea, eb, n, tk, err>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars

Next == Begin \/ NextVoice \/ StepA \/ StepB \/ Compare \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Same == ph # "bad"
=============================================================================
