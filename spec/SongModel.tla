------------------------------ MODULE SongModel ------------------------------
(***************************************************************************)
(* A song as a list of commands (the JSON form of the tool) and the        *)
(* machine that performs one of its voices.                                *)
(*                                                                         *)
(* A song is [voices, seqs]: voices = indices into seqs of the sequences   *)
(* the part plays, seqs = sequences of commands [d, v, s, op, a]; d, v, s  *)
(* (duration, velocity, articulation) are -1 when left unset, op is the    *)
(* name of the command and a its parameters.  A called sequence starts     *)
(* with nothing in force and leaves its values to its caller (those that   *)
(* it does not touch stay in force there); what is not in force is         *)
(* reported as -1 (any value).  In a voice that has called nothing yet     *)
(* (fresh) the first note, or whatever sets the first of the two, takes    *)
(* velocity 13 and articulation 7 for what is left unset.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* the control commands of the sound driver: opcode and number of parameters
CmdTable ==
  [ SetInstrument |-> <<224, 1>>, Pan |-> <<225, 1>>, PanFade |-> <<226, 2>>,
    Vibrato |-> <<227, 3>>, VibratoOff |-> <<228, 0>>, MasterVolume |-> <<229, 1>>,
    MasterVolumeFade |-> <<230, 2>>, Tempo |-> <<231, 1>>, TempoFade |-> <<232, 2>>,
    GlobalTranspose |-> <<233, 1>>, ChannelTranspose |-> <<234, 1>>, Tremolo |-> <<235, 3>>,
    TremoloOff |-> <<236, 0>>, ChannelVolume |-> <<237, 1>>, ChannelVolumeFade |-> <<238, 2>>,
    VibratoFade |-> <<240, 1>>, PitchEnvelopeTo |-> <<241, 3>>, PitchEnvelopeFrom |-> <<242, 3>>,
    PitchEnvelopeOff |-> <<243, 0>>, Tuning |-> <<244, 1>>, EchoVolume |-> <<245, 3>>,
    EchoOff |-> <<246, 0>>, EchoParams |-> <<247, 3>>, EchoVolumeFade |-> <<248, 3>>,
    PitchSlide |-> <<249, 3>>, PercussionPatchBase |-> <<250, 1>> ]

SongVoiceInit(seq) ==
  [st |-> "run", seq |-> seq, i |-> 1, inl |-> FALSE, cseq |-> 0, ci |-> 0, cnt |-> 0,
   t |-> 0, dur |-> 0, vel |-> -1, q |-> -1, touch |-> FALSE, fresh |-> TRUE, sd |-> 0, sv |-> -1, sq |-> -1]

LOCAL Err(v, why) == [v |-> [v EXCEPT !.st = "err"], e |-> [k |-> "err", why |-> why]]

\* one step; raw = TRUE: events are the bare commands, FALSE: what the driver is to do
SongStep(song, v, raw) ==
  IF v.i > Len(song.seqs[v.seq]) THEN
    IF ~ v.inl THEN [v |-> [v EXCEPT !.st = "end"], e |-> [k |-> "end", t |-> v.t]]
    ELSE IF v.cnt > 1
    THEN [v |-> [v EXCEPT !.cnt = @ - 1, !.i = 1, !.dur = 0, !.vel = -1, !.q = -1], e |-> [k |-> "nil"]]
    ELSE [v |-> [v EXCEPT !.inl = FALSE, !.seq = v.cseq, !.i = v.ci,
                          !.dur = IF @ = 0 THEN v.sd ELSE @,
                          \* velocity and articulation are set together, and by every note
                          !.vel = IF v.touch THEN @ ELSE v.sv, !.q = IF v.touch THEN @ ELSE v.sq], e |-> [k |-> "nil"]]
  ELSE
  LET c == song.seqs[v.seq][v.i]
      \* 0 stands for "unset" as well: it cannot be expressed in the driver's format
      d == IF c.d > 0 THEN c.d ELSE v.dur
      touches == c.v > 0 \/ c.s > 0 \/ c.op = "Note"
      vel == IF c.v > 0 THEN c.v ELSE IF v.fresh /\ touches /\ v.vel = -1 THEN 13 ELSE v.vel
      q == IF c.s > 0 THEN c.s ELSE IF v.fresh /\ touches /\ v.q = -1 THEN 7 ELSE v.q
      n == [v EXCEPT !.i = @ + 1, !.dur = d, !.vel = vel, !.q = q,
                           !.touch = @ \/ touches]
  IN
  IF c.op = "CallLoop" THEN
    IF v.inl THEN Err(v, "loop call inside a called sequence")
    ELSE IF c.a[1] + 1 \notin 1..Len(song.seqs) THEN Err(v, "loop call of a sequence that does not exist")
    ELSE IF c.a[2] \notin 1..255 THEN Err(v, "repeat count out of range")
    ELSE IF song.seqs[c.a[1] + 1] = <<>> THEN Err(v, "loop call of an empty sequence")
    ELSE [v |-> [v EXCEPT !.inl = TRUE, !.cseq = v.seq, !.ci = v.i + 1, !.cnt = c.a[2],
                          !.seq = c.a[1] + 1, !.i = 1, !.dur = 0, !.vel = -1, !.q = -1,
                          !.touch = FALSE, !.fresh = FALSE, !.sd = v.dur, !.sv = v.vel, !.sq = v.q],
          e |-> [k |-> "nil"]]
  ELSE IF raw THEN [v |-> [v EXCEPT !.i = @ + 1], e |-> [k |-> "raw", c |-> c]]
  ELSE IF c.op \in {"Note", "Tie", "Rest"} THEN
    IF d = 0 THEN Err(v, "no duration in force")
    ELSE LET m == [n EXCEPT !.t = @ + d] IN
         IF c.op = "Note" THEN [v |-> m, e |-> [k |-> "note", n |-> c.a[1], t |-> v.t, d |-> d, vel |-> vel, q |-> q]]
         ELSE IF c.op = "Tie" THEN [v |-> m, e |-> [k |-> "tie", t |-> v.t, d |-> d, q |-> q]]
         ELSE [v |-> m, e |-> [k |-> "rest", t |-> v.t, d |-> d]]
  ELSE IF c.op \in DOMAIN CmdTable /\ Len(c.a) = CmdTable[c.op][2]
  THEN [v |-> n, e |-> [k |-> "cmd", op |-> CmdTable[c.op][1], a |-> c.a, t |-> v.t]]
  ELSE Err(v, "unknown command")

(***************************************************************************)
(* C02: the form of the loop calls of a song.                              *)
(***************************************************************************)
Calls(song) ==
  UNION {{[seq |-> s, i |-> i, target |-> song.seqs[s][i].a[1] + 1, n |-> song.seqs[s][i].a[2]] :
            i \in {i \in 1..Len(song.seqs[s]) : song.seqs[s][i].op = "CallLoop"}} :
         s \in 1..Len(song.seqs)}
VoiceSet(song) == {song.voices[i] + 1 : i \in 1..Len(song.voices)}
Executable(song) ==
  LET calls == Calls(song) IN
  /\ VoiceSet(song) \subseteq 1..Len(song.seqs)
  /\ \A c \in calls : /\ c.target \in 1..Len(song.seqs)
                      /\ c.target \notin VoiceSet(song)
                      /\ song.seqs[c.target] # <<>>
                      /\ c.n \in 1..255
                      /\ \A d \in calls : d.seq # c.target
  /\ \A s \in 1..Len(song.seqs) : s \in VoiceSet(song) \/ \E c \in calls : c.target = s
=============================================================================
