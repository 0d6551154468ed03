------------------------------- MODULE TRom --------------------------------
(***************************************************************************)
(* C13, C14, C25: what a successful build did to the ROM file.  For every  *)
(* recorded build the spec finds the banks from the pointers of the ROM as *)
(* it was, decides for every changed byte whether it may change, and       *)
(* follows the song tables to all pieces of all songs.                     *)
(***************************************************************************)
EXTENDS RomImage, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Images == D.images

VARIABLES cid, ars, ph, bank, slot, mem, pieces, cur, song, plays, np, err
vars == <<cid, ars, ph, bank, slot, mem, pieces, cur, song, plays, np, err>>
C == Cases[cid]
Old == Images[C.before]
New == Images[C.after]
NoMem == [mb |-> 0, m |-> <<>>, ob |-> 0, o |-> <<>>]

Init == /\ cid \in 1..Len(Cases) /\ ars = <<>> /\ ph = "find" /\ bank = 0 /\ slot = 0 /\ mem = NoMem
        /\ pieces = {} /\ cur = {} /\ song = [st |-> "stop", pos |-> 0] /\ plays = 0 /\ np = 0 /\ err = ""

\* finds the song areas of the three banks in the ROM as it was
Find ==
  /\ ph = "find"
  /\ ars' = [b \in 1..3 |-> Areas(Old, C.bases[b])]
  /\ IF C.want # "diff" THEN ph' = "bank" /\ err' = ""
     ELSE /\ err' = IF C.size # C.size2 THEN "the size of the ROM changed"
                    ELSE IF Len(C.outside) > 0 THEN "a byte outside the banks changed" ELSE ""
          /\ ph' = IF err' = "" THEN "diff" ELSE "bad"
  /\ UNCHANGED <<cid, bank, slot, mem, pieces, cur, song, plays, np>>

\* may the byte at file offset x change?
Inside(c, x) == x >= c.data /\ x < c.data + c.len
May(x) ==
  \E b \in 1..3 :
    \/ Inside(ars[b].over, x)
    \/ Inside(ars[b].main, x) /\ x - ars[b].main.data >= 2 * First[b]

\* C13, window by window (slot counts the windows)
Diff ==
  /\ ph = "diff"
  /\ IF slot = Len(Old) THEN ph' = "fin" /\ UNCHANGED <<slot, np, err>>
     ELSE LET o == Old[slot + 1]  n == New[slot + 1]
              ch == {i \in 1..Len(o.d) : o.d[i] # n.d[i]}
          IN /\ slot' = slot + 1 /\ np' = np + Cardinality(ch)
             /\ err' = IF \E i \in ch : ~ May(o.at + i - 1) THEN "a byte outside the song areas changed" ELSE ""
             /\ ph' = IF err' = "" THEN "diff" ELSE "bad"
  /\ UNCHANGED <<cid, ars, bank, mem, pieces, cur, song, plays>>

NextBank ==
  /\ ph = "bank"
  /\ IF bank = 3 THEN ph' = "fin" /\ UNCHANGED <<bank, slot, mem, pieces, cur>>
     ELSE /\ bank' = bank + 1 /\ slot' = First[bank + 1]
          /\ mem' = Mem(New, ars[bank + 1])
          \* the bank's own part of the song table is a piece as well
          /\ pieces' = {[k |-> "table", lo |-> SongBase + 2 * First[bank + 1], hi |-> SongBase + TableEnd[bank + 1]]}
          /\ cur' = {} /\ ph' = IF C.want = "songs" THEN "song" ELSE "play"
  /\ UNCHANGED <<cid, ars, song, plays, np, err>>

\* C14: the pieces of one song
Apart(p, q) == p.hi <= q.lo \/ q.hi <= p.lo
\* what follows the bank's last song in its table, up to the first song, still names music that was replaced
Stale == \E i \in (First[bank] + Count[bank])..(TableEnd[bank] \div 2 - 1) : RdWord(mem, SongBase + 2 * i) # 0
Song ==
  /\ ph = "song"
  /\ LET ps == Pieces(mem, slot)
         bad == {p \in ps : p.hi < 0 \/ ~ InArea(mem, p.lo, p.hi)}
         \* one sequence called from several places is one piece; everything else is apart
         clash == {p \in ps : \E q \in ps : p # q /\ ~ Apart(p, q)}
         steal == {p \in ps : \E q \in pieces : ~ Apart(p, q)}
         nv == Cardinality({i \in 1..8 : VoiceAddrs(mem, slot)[i] \notin {0, -1}})
     IN /\ cur' = ps /\ pieces' = pieces \cup ps /\ np' = np + Cardinality(ps)
        /\ err' = IF bad # {} THEN "piece not inside one song area"
                  ELSE IF clash # {} THEN "two pieces of one song overlap"
                  ELSE IF steal # {} THEN "a piece overlaps another song or the song table"
                  ELSE IF NumParts(mem, slot) # C.parts[slot + 1] THEN "a part is missing"
                  ELSE IF C.voices[slot + 1] >= 0 /\ nv # C.voices[slot + 1] THEN "a voice is missing"
                  ELSE IF slot + 1 = First[bank] + Count[bank] /\ Stale THEN "the song table keeps an entry that is no song"
                  ELSE ""
        /\ ph' = IF err' # "" THEN "bad" ELSE IF slot + 1 = First[bank] + Count[bank] THEN "bank" ELSE "song"
        /\ slot' = IF ph' = "song" THEN slot + 1 ELSE slot
  /\ UNCHANGED <<cid, ars, bank, mem, song, plays>>

\* C25: the song level of the driver
Play ==
  /\ ph = "play"
  /\ song' = SongInit(mem, slot) /\ plays' = 0 /\ ph' = "run"
  /\ UNCHANGED <<cid, ars, bank, slot, mem, pieces, cur, np, err>>
SilentPart(p) == \A i \in 0..7 : RdWord(mem, p + 2 * i) = 0
Run ==
  /\ ph = "run"
  /\ LET r == SongNext(mem, song)
         L == C.loops[slot + 1]        \* "loop", "once", "empty"
         back == r.part = -1 /\ r.s.st = "run"
     IN /\ song' = r.s
        /\ plays' = IF r.part # -1 THEN plays + 1 ELSE plays
        /\ err' = IF r.s.st = "err" THEN "the song header is broken"
                  ELSE IF r.part # -1 /\ L = "empty" /\ ~ SilentPart(r.part) THEN "an empty song plays something"
                  ELSE IF r.part # -1 /\ L # "empty" /\ plays = 0 /\ C.voices[slot + 1] > 0 /\ SilentPart(r.part)
                       THEN "a song plays nothing"
                  ELSE IF r.part # -1 /\ r.part # RdWord(mem, SongAddr(mem, slot) + 2 * (IF NumParts(mem, slot) = 0 THEN 0 ELSE plays % NumParts(mem, slot)))
                       THEN "another part is played"
                  ELSE IF L = "loop" /\ r.s.st = "stop" THEN "a looping song stops"
                  ELSE IF L # "loop" /\ back THEN "a song that must not loop jumps back"
                  ELSE IF L # "loop" /\ plays' > C.parts[slot + 1] THEN "a song that must not loop plays again"
                  ELSE IF L = "once" /\ r.s.st = "stop" /\ plays' # C.parts[slot + 1] THEN "the parts are not played once"
                  \* jumping back to the start repeats what was just played, for ever
                  ELSE IF back /\ plays % C.parts[slot + 1] # 0 THEN "a looping song does not play all of its parts"
                  ELSE IF back /\ (r.s.pos # SongAddr(mem, slot) \/ plays = 0) THEN "the song does not restart from its beginning"
                  ELSE ""
        /\ LET over == r.s.st = "stop" \/ (back /\ plays >= 2 * NumParts(mem, slot)) IN
           /\ ph' = IF err' # "" THEN "bad" ELSE IF ~ over THEN "run"
                    ELSE IF slot + 1 = First[bank] + Count[bank] THEN "bank" ELSE "play"
           /\ slot' = IF ph' = "play" THEN slot + 1 ELSE slot
        /\ np' = np + 1
  /\ UNCHANGED <<cid, ars, bank, mem, pieces, cur>>

Finish == /\ ph = "fin" /\ ph' = "done" /\ PrintT(<<"@", cid, np>>)
          /\ UNCHANGED <<cid, ars, bank, slot, mem, pieces, cur, song, plays, np, err>>
Done == ph \in {"done", "bad"} /\ UNCHANGED vars
Next == Find \/ Diff \/ NextBank \/ Song \/ Play \/ Run \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
Held == err = ""
=============================================================================
