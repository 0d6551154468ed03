----------------------------- MODULE TManifest ------------------------------
(***************************************************************************)
(* C17: which file a manifest names for a song slot, and with which tempo  *)
(* factor.  A path is a sequence of names and a name is the sequence of    *)
(* its parts between dots: "../x/a.mid" is << <<"","","">>, <<"x">>,       *)
(* <<"a","mid">> >>.  The song found in the slot is then executed against  *)
(* the content of that file (TTwin).                                       *)
(***************************************************************************)
EXTENDS TTwin

Here == <<"", "">>
Up == <<"", "", "">>
RECURSIVE Norm(_, _)
Norm(p, at) ==
  IF p = <<>> THEN at
  ELSE Norm(Tail(p), IF Head(p) = Here THEN at
                     ELSE IF Head(p) = Up THEN SubSeq(at, 1, Len(at) - 1) ELSE Append(at, Head(p)))
\* an absolute path stands for itself, any other is taken from the manifest's folder
Resolve(e) == IF e.abs THEN Norm(e.path, <<>>) ELSE Norm(e.path, Norm(C.folder, <<>>))
IsMidi(path) == LET nm == path[Len(path)] IN Len(nm) > 1 /\ nm[Len(nm)] = "mid"
Factor(e) == IF "num" \in DOMAIN e THEN <<e.num, e.den>> ELSE <<1, 5>>

SlotNames ==
  [ overworld |-> << "Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp",
                     "Dark World", "Master Sword", "File Select", "Soldier", "Mountain", "Shop", "Fanfare" >>,
    indoor |-> << "Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way",
                  "Rescue", "Crystal", "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss" >>,
    ending |-> << "Triforce", "Ending", "Staff" >> ]
First == [overworld |-> 0, indoor |-> 15, ending |-> 31]
Slot(bank, name) == First[bank] + (CHOOSE i \in 1..Len(SlotNames[bank]) : SlotNames[bank][i] = name) - 1

\* the file and factor the specification picks are the ones the reference was made from
Bound ==
  ph = "start" =>
    LET e == C.entry
        S == {f \in 1..Len(D.files) : D.files[f].path = Resolve(e)}
    IN /\ Cardinality(S) = 1
       /\ \A f \in S : /\ C.b.song = D.files[f].song + C.form
                       /\ D.files[f].midi = IsMidi(Resolve(e))
                       /\ (D.files[f].midi => /\ C.us = D.files[f].us
                                              /\ C.num = Factor(e)[1] /\ C.den = Factor(e)[2])
                       /\ (~ D.files[f].midi => "us" \notin DOMAIN C)
       /\ C.a.slot = Slot(C.bank, C.name)
=============================================================================
