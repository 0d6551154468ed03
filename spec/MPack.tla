------------------------------- MODULE MPack -------------------------------
(***************************************************************************)
(* Design model of laying out songs.  Songs are sequences of pieces (sizes *)
(* in units); each goes behind the one before in the main area and, from   *)
(* the first that does not fit, in the overflow area.  Pointers between    *)
(* pieces are filled in when the song is complete.  Checked: nothing lies  *)
(* outside its area or on another piece, every pointer leads to its piece, *)
(* and refusal happens exactly when no cut of the list fits (C14, C16).    *)
(* BUG: "strict" refuses to fill an area completely; "unchecked" does not  *)
(* check the first piece moved to the overflow area; "back" returns to the *)
(* main area for a smaller piece; "base" fills in pointers relative to the *)
(* area in use at the end of the song; "table" forgets that the song table *)
(* in front of the songs (Table units) must be in the main area as well.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSongs, MaxPiece, MaxArea, Table, BUG, EMIT

VARIABLES sizes, main, over,      \* the input
          k, area, off, offMain,  \* next piece, area in use, end of data in it
          place,                  \* piece -> [area, off]
          ptr,                    \* piece -> [area, off] the header's pointer leads to
          ph
vars == <<sizes, main, over, k, area, off, offMain, place, ptr, ph>>

\* a song is a header (size 1) and a voice
Input == [1..2 * NSongs -> 1..MaxPiece]
Init == /\ sizes \in {s \in Input : \A i \in 1..NSongs : s[2 * i - 1] = 1}
        /\ main \in 0..MaxArea /\ over \in 0..MaxArea
        /\ k = 1 /\ area = "main" /\ off = Table /\ offMain = Table /\ place = <<>> /\ ptr = <<>> /\ ph = "lay"

Size(a) == IF a = "main" THEN main ELSE over
FitsAt(n, o, a) == IF BUG = "strict" THEN o + n < Size(a) ELSE o + n <= Size(a)

Put(a, o) ==
  /\ place' = Append(place, [area |-> a, off |-> o])
  /\ off' = o + sizes[k] /\ area' = a /\ k' = k + 1
  /\ offMain' = IF a = "main" THEN o + sizes[k] ELSE offMain

Lay ==
  /\ ph = "lay" /\ k <= Len(sizes)
  /\ IF BUG # "table" /\ Table > main THEN ph' = "refused" /\ UNCHANGED <<k, area, off, offMain, place>>
     ELSE IF BUG = "back" /\ area = "over" /\ FitsAt(sizes[k], offMain, "main") THEN Put("main", offMain) /\ UNCHANGED ph
     ELSE IF FitsAt(sizes[k], off, area) THEN Put(area, off) /\ UNCHANGED ph
     ELSE IF area = "over" THEN ph' = "refused" /\ UNCHANGED <<k, area, off, offMain, place>>
     ELSE IF BUG # "unchecked" /\ ~ FitsAt(sizes[k], 0, "over")
     THEN ph' = "refused" /\ UNCHANGED <<k, area, off, offMain, place>>
     ELSE Put("over", 0) /\ UNCHANGED ph
  \* the voice of a song ends it: its pointer is filled in
  /\ ptr' = IF Len(place') > Len(place) /\ k % 2 = 0
            THEN Append(ptr, IF BUG = "base" THEN [area |-> place'[k - 1].area, off |-> place'[k].off] ELSE place'[k])
            ELSE ptr
  /\ UNCHANGED <<sizes, main, over>>

RECURSIVE Sum(_, _, _)
Sum(s, i, j) == IF i > j THEN 0 ELSE s[i] + Sum(s, i + 1, j)
\* the longest prefix that fits the main area; the rest must fit the overflow area
Cut == CHOOSE c \in 0..Len(sizes) : /\ Table + Sum(sizes, 1, c) <= main
                                    /\ c = Len(sizes) \/ Table + Sum(sizes, 1, c + 1) > main
ShouldFit == Table <= main /\ Sum(sizes, Cut + 1, Len(sizes)) <= over

Accept == /\ ph = "lay" /\ k > Len(sizes) /\ ph' = "written"
          /\ (EMIT => PrintT(<<"@", sizes, main, over, TRUE>>))
          /\ UNCHANGED <<sizes, main, over, k, area, off, offMain, place, ptr>>
Refuse == /\ ph = "refused" /\ ph' = "end"
          /\ (EMIT => PrintT(<<"@", sizes, main, over, FALSE>>))
          /\ UNCHANGED <<sizes, main, over, k, area, off, offMain, place, ptr>>
Next == Lay \/ Accept \/ Refuse
Spec == Init /\ [][Next]_vars

InsideAreas ==
  /\ ph = "written" => Table <= main
  /\ \A i \in 1..Len(place) : place[i].off + sizes[i] <= Size(place[i].area)
DisjointPieces ==
  \A i, j \in 1..Len(place) : (i # j /\ place[i].area = place[j].area) =>
     place[i].off + sizes[i] <= place[j].off \/ place[j].off + sizes[j] <= place[i].off
PointersRight == \A i \in 1..Len(ptr) : ptr[i] = place[2 * i]
RefusedExactly == /\ ph = "written" => ShouldFit
                  /\ ph = "refused" => ~ ShouldFit
=============================================================================
