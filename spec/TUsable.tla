------------------------------ MODULE TUsable -------------------------------
(***************************************************************************)
(* C30: what the tool can use, and that it says so when it cannot.         *)
(* A case is one run: the command, everything it is given, and how it      *)
(* ended.  The machine looks at what is given, one thing after the other - *)
(* bank addresses, the three banks of the ROM chunk by chunk, the          *)
(* manifest, the songs - and notes what is wrong.  The run must succeed if *)
(* nothing is, and else be refused with a message.                         *)
(*                                                                         *)
(* JSON values are [t, ...]: t = "obj" (k: keys, v: values), "arr" (v),    *)
(* "num" (int: a whole number that is not negative, n), "str", "bool",     *)
(* "null"; "broken" is a file that is no JSON, "none" no file at all.      *)
(* A MIDI file is [t |-> "midi", format, division, missing, whole, data,   *)
(* tempos, long]: missing tracks of those its header promises, whole if    *)
(* its tracks are, data if that of all events has seven bits, tempos if    *)
(* every tempo event has its three bytes, long if its time does not fit    *)
(* into 32 bits.                                                           *)
(***************************************************************************)
EXTENDS RomImage, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
Files == D.files
Names == D.names       \* names of banks and songs as the manifest schema has them

VARIABLES cid, ph, bank, at, main, i, err
vars == <<cid, ph, bank, at, main, i, err>>
C == Cases[cid]
Rom == C.rom            \* sequence of windows
OnRom == C.op \in {"build_rom", "all_overworld", "file_select", "gen_fake_rom"}

(***************************************************************************)
(* JSON                                                                    *)
(***************************************************************************)
Has(j, key) == j.t = "obj" /\ \E n \in 1..Len(j.k) : j.k[n] = key
Get(j, key) == IF Has(j, key) THEN j.v[CHOOSE n \in 1..Len(j.k) : j.k[n] = key] ELSE [t |-> "null"]
Whole(j, hi) == j.t = "num" /\ j.int /\ j.n <= hi
Arr(j) == j.t = "arr"

\* the manifest follows its schema
SongEntry(e) ==
  /\ e.t = "obj" /\ Get(e, "input").t = "str"
  /\ Has(e, "tempoAdjust") => Get(e, "tempoAdjust").t = "num"
  /\ Has(e, "loop") => Get(e, "loop").t = "bool"
Manifest(m) ==
  /\ m.t = "obj"
  /\ \A b \in 1..3 : \A n \in 1..Len(Names.songs[b]) : SongEntry(Get(Get(m, Names.banks[b]), Names.songs[b][n]))

\* parameters of the commands of the driver
P0 == {"Rest", "Tie", "VibratoOff", "TremoloOff", "PitchEnvelopeOff", "EchoOff"}
P1 == {"Note", "SetInstrument", "Pan", "MasterVolume", "Tempo", "GlobalTranspose", "ChannelTranspose", "ChannelVolume",
       "VibratoFade", "Tuning", "PercussionPatchBase"}
P2 == {"PanFade", "MasterVolumeFade", "TempoFade", "ChannelVolumeFade"}
P3 == {"Vibrato", "Tremolo", "PitchEnvelopeTo", "PitchEnvelopeFrom", "EchoVolume", "EchoParams", "EchoVolumeFade", "PitchSlide"}

Opt(c, key, hi) == LET x == Get(c, key) IN x.t = "null" \/ Whole(x, hi)
Calls(c) == LET x == Get(c, "command") IN x.t = "obj" /\ x.k = <<"CallLoop">>
CallOk(x, nseqs) == Arr(x) /\ Len(x.v) = 2 /\ x.v[1].t = "num" /\ x.v[1].int /\ x.v[1].n < nseqs /\ Whole(x.v[2], 255)
Command(c, nseqs) ==
  /\ c.t = "obj" /\ Opt(c, "duration", 127) /\ Opt(c, "velocity", 15) /\ Opt(c, "sustain", 7)
  /\ LET x == Get(c, "command") IN
     \/ x.t = "str" /\ x.s \in P0
     \/ /\ x.t = "obj" /\ Len(x.k) = 1
        /\ LET n == x.k[1]  y == x.v[1] IN
           \/ n = "Note" /\ Whole(y, 199) /\ y.n >= 128
           \/ n \in P1 \ {"Note"} /\ Whole(y, 255)
           \/ n \in P2 /\ Arr(y) /\ Len(y.v) = 2 /\ \A p \in 1..2 : Whole(y.v[p], 255)
           \/ n \in P3 /\ Arr(y) /\ Len(y.v) = 3 /\ \A p \in 1..3 : Whole(y.v[p], 255)
           \/ n = "CallLoop" /\ CallOk(y, nseqs)
Track(t, nseqs) == t.t = "obj" /\ Arr(Get(t, "commands")) /\ \A c \in 1..Len(Get(t, "commands").v) : Command(Get(t, "commands").v[c], nseqs)
CommandsOf(s, n) == Get(Get(s, "tracks").v[n + 1], "commands").v
\* the driver plays up to eight voices and returns from a called sequence to one place only
Playable(s) ==
  /\ Len(Get(s, "parts").v) > 0
  /\ \A p \in 1..Len(Get(s, "parts").v) :
       LET ts == Get(Get(s, "parts").v[p], "tracks").v IN
       Len(ts) <= 8 /\ \A n \in 1..Len(ts) : ts[n].n < Len(Get(s, "tracks").v)
  /\ \A n \in 0..(Len(Get(s, "tracks").v) - 1) : \A c \in 1..Len(CommandsOf(s, n)) :
       Calls(CommandsOf(s, n)[c]) =>
         LET called == CommandsOf(s, Get(CommandsOf(s, n)[c], "command").v[1].v[1].n) IN
         Len(called) > 0 /\ \A m \in 1..Len(called) : ~ Calls(called[m])
Song(s) ==
  /\ s.t = "obj" /\ Arr(Get(s, "parts")) /\ Arr(Get(s, "tracks"))
  /\ \A p \in 1..Len(Get(s, "parts").v) :
       LET x == Get(s, "parts").v[p] IN
       /\ x.t = "obj" /\ Arr(Get(x, "tracks"))
       /\ \A n \in 1..Len(Get(x, "tracks").v) : Get(x, "tracks").v[n].t = "num" /\ Get(x, "tracks").v[n].int
  /\ \A n \in 1..Len(Get(s, "tracks").v) : Track(Get(s, "tracks").v[n], Len(Get(s, "tracks").v))
  /\ Playable(s)

Midi(f) == f.format = 1 /\ f.division \in 1..32767 /\ f.missing = 0 /\ f.whole /\ f.data /\ f.tempos /\ ~ f.long
Input(f) == IF f.t = "midi" THEN Midi(f) ELSE Song(f)

(***************************************************************************)
(* Bank addresses: hexadecimal digits (99 for any other character)         *)
(***************************************************************************)
RECURSIVE Value(_, _, _)
Value(d, n, acc) == IF n > Len(d) THEN acc ELSE IF d[n] > 15 \/ acc > 16777215 THEN -1 ELSE Value(d, n + 1, acc * 16 + d[n])
Address(d) == IF Len(d) = 0 THEN -1 ELSE LET v == Value(d, 1, 0) IN IF v > 16777215 - 8 THEN -1 ELSE v

Bad(x) == IF x = "" THEN err ELSE Append(err, x)
Init == /\ cid \in 1..Len(Cases) /\ err = <<>> /\ bank = 1 /\ at = -1 /\ main = 0 /\ i = 1
        /\ ph = "addrs"
Addrs ==
  /\ ph = "addrs"
  /\ IF OnRom /\ (Len(C.addrs) # 3 \/ \E b \in 1..Len(C.addrs) : Address(C.addrs[b]) = -1)
     THEN err' = Bad("bank addresses") /\ ph' = "judge"
     ELSE UNCHANGED err /\ ph' = (IF OnRom THEN "rom" ELSE "songs")
  /\ UNCHANGED <<cid, bank, at, main, i>>

\* the next bank: follow its pointer
Bank ==
  /\ ph = "rom" /\ at = -1 /\ bank <= 3
  /\ LET a == Address(C.addrs[bank])
         lo == Byte(Rom, Pc(a))  hi == Byte(Rom, Pc(a + 4))  bk == Byte(Rom, Pc(a + 8)) IN
     IF -1 \in {lo, hi, bk} THEN err' = Bad("bank pointer outside of the ROM") /\ ph' = "judge" /\ UNCHANGED at
     ELSE at' = Pc(lo + 256 * hi + 65536 * bk) /\ UNCHANGED <<err, ph>>
  /\ main' = 0 /\ UNCHANGED <<cid, bank, i>>
\* the next chunk of the bank. main: 0 not seen, 1 just seen, 2 with an area behind it, -1 too small
Chunk ==
  /\ ph = "rom" /\ at # -1
  /\ IF at + 4 > C.size THEN err' = Bad("chunk header outside of the ROM") /\ ph' = "judge" /\ UNCHANGED <<bank, at, main>>
     ELSE LET n == Word(Rom, at)
              here == Word(Rom, at + 2) = SongBase /\ n > 0
              m == IF main = 1 THEN 2 ELSE IF here /\ main = 0 THEN (IF n < TableEnd[bank] THEN -1 ELSE 1) ELSE main IN
          IF at + 4 + n > C.size THEN err' = Bad("chunk outside of the ROM") /\ ph' = "judge" /\ UNCHANGED <<bank, at, main>>
          ELSE IF n > 0 THEN at' = at + 4 + n /\ main' = m /\ UNCHANGED <<err, ph, bank>>
          ELSE IF C.op # "gen_fake_rom" /\ m # 2 THEN err' = Bad("no room for songs in a bank") /\ ph' = "judge" /\ UNCHANGED <<bank, at, main>>
          ELSE at' = -1 /\ bank' = bank + 1 /\ main' = 0 /\ UNCHANGED <<err, ph>>
  /\ UNCHANGED <<cid, i>>
RomRead ==
  /\ ph = "rom" /\ at = -1 /\ bank > 3
  /\ ph' = IF C.op = "build_rom" THEN "manifest" ELSE IF C.op = "gen_fake_rom" THEN "output" ELSE "songs"
  /\ UNCHANGED <<cid, bank, at, main, i, err>>

ManifestRead ==
  /\ ph = "manifest"
  /\ IF Manifest(Files[C.manifest]) THEN UNCHANGED err /\ ph' = "songs" ELSE err' = Bad("manifest") /\ ph' = "judge"
  /\ UNCHANGED <<cid, bank, at, main, i>>
OneSong ==
  /\ ph = "songs" /\ i <= Len(C.songs)
  /\ IF Input(Files[C.songs[i]]) THEN i' = i + 1 /\ UNCHANGED <<err, ph>>
     ELSE err' = Bad("song " \o ToString(i)) /\ ph' = "judge" /\ UNCHANGED i
  /\ UNCHANGED <<cid, bank, at, main>>
AllSongs == ph = "songs" /\ i > Len(C.songs) /\ ph' = "output" /\ UNCHANGED <<cid, bank, at, main, i, err>>
Output ==
  /\ ph = "output" /\ ph' = "judge"
  /\ err' = (IF C.output THEN err ELSE Bad("output cannot be written"))
  /\ UNCHANGED <<cid, bank, at, main, i>>

Judge ==
  /\ ph = "judge"
  /\ LET want == IF err = <<>> THEN "ok" ELSE "error" IN
     /\ err' = IF C.outcome # want THEN <<"ends with", C.outcome, "expected", want, err>>
               ELSE IF want = "error" /\ ~ C.message THEN <<"refused without a message", err>> ELSE err
     /\ ph' = (IF C.outcome # want \/ (want = "error" /\ ~ C.message) THEN "wrong" ELSE "done")
     /\ PrintT(<<"@", cid, want>>)
  /\ UNCHANGED <<cid, bank, at, main, i>>
Done == ph \in {"done", "wrong"} /\ UNCHANGED vars
Next == Addrs \/ Bank \/ Chunk \/ RomRead \/ ManifestRead \/ OneSong \/ AllSongs \/ Output \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
Held == ph # "wrong"
=============================================================================
