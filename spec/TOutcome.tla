----------------------------- MODULE TOutcome -------------------------------
(***************************************************************************)
(* The tool as a function (C19, C20, C24).  A session is a sequence of     *)
(* runs of the command line tool.  A run asks for something - to convert a *)
(* file, or to build songs into a ROM - and is answered by an exit status  *)
(* and a result file.  Files are numbered by content: equal content, equal *)
(* number; 0 is no file.                                                   *)
(*                                                                         *)
(* What is asked for does not include verbosity or where and when the tool *)
(* runs, and a MIDI file to be built means the song it converts to: asking *)
(* the same again must be answered the same (OneAnswer).  Every run must   *)
(* end with a result or with an error message (Answered).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Sessions == D.cases
VARIABLES cid, i,        \* session and runs done
          known,         \* requests answered so far
          err
vars == <<cid, i, known, err>>
Runs == Sessions[cid].runs

(***************************************************************************)
(* Run: [op, comp, ins, loops, rom, verb; kind, code, out, msg].           *)
(* op "json": convert; "fake": fake ROM; "build", "select", "all": put the *)
(* files ins (records [file, midi]) into the ROM rom.                      *)
(***************************************************************************)
\* the song an input stands for
SongOf(in, comp) ==
  IF ~ in.midi THEN <<"song", in.file>>
  ELSE LET r == <<"json", comp, << <<"midi", in.file>> >>, <<>>, 0>> IN
       IF r \in DOMAIN known /\ known[r].code = 0 THEN <<"song", known[r].out>> ELSE <<"midi", in.file, comp>>

Request(r) ==
  IF r.op = "json" THEN <<"json", r.comp, << <<"midi", r.ins[1].file>> >>, <<>>, 0>>
  ELSE <<r.op, TRUE, [k \in 1..Len(r.ins) |-> SongOf(r.ins[k], r.comp)], r.loops, r.rom>>

Answer(r) == [code |-> r.code, out |-> r.out]

Init == cid \in 1..Len(Sessions) /\ i = 0 /\ known = <<>> /\ err = <<>>

Good(r) ==
  /\ r.kind \in {"ok", "error"}
  /\ (r.kind = "error" => r.msg)                   \* says why
  /\ (r.op = "json" => (r.kind = "ok") = (r.out # 0))

Step ==
  /\ err = <<>> /\ i < Len(Runs)
  /\ LET r == Runs[i + 1]  q == Request(r) IN
     /\ i' = i + 1
     /\ known' = IF q \in DOMAIN known THEN known ELSE (q :> Answer(r)) @@ known
     /\ err' = IF Sessions[cid].answered /\ ~ Good(r) THEN <<"no answer", i + 1, r>>
               ELSE IF q \in DOMAIN known /\ known[q] # Answer(r)
               THEN <<"another answer to the same request", i + 1, r, known[q]>> ELSE <<>>
  /\ UNCHANGED cid
Finish == err = <<>> /\ i = Len(Runs) /\ i' = i + 1 /\ PrintT(<<"@", cid, i>>) /\ UNCHANGED <<cid, known, err>>
Done == (err # <<>> \/ i > Len(Runs)) /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

Held == err = <<>>
=============================================================================
