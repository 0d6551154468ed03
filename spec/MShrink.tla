------------------------------ MODULE MShrink -------------------------------
(***************************************************************************)
(* Design model of compression as a process that runs until nothing is     *)
(* left to do (C29; what it does to the music is MLoopOpt's subject).      *)
(* Voices are words.  Each step takes a factor of at least MinBody         *)
(* commands that occurs more than once without overlap, one of those that  *)
(* save most, and puts calls of a new sequence in the place of its         *)
(* occurrences, counted from the left.  When no such factor is left the    *)
(* process stops.  Checked: a step never makes the song longer, and when   *)
(* the process stops no passage of MinBody plain commands is there twice.  *)
(* BUG: "early" stops as soon as nothing saves more than two commands;     *)
(* "longer" asks for one command more than MinBody; "inside" takes a       *)
(* command out of consideration that stands next to a call; "single" looks *)
(* for repetitions within one voice only; "tiny" takes factors of one      *)
(* command too.                                                            *)
(* The command "t" (a tie) never starts a factor, and passages that hold   *)
(* one need not be found.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen, NVoices, MinBody, BUG

VARIABLES voices, bodies, ph, before
vars == <<voices, bodies, ph, before>>

Words == UNION {[1..n -> {<<x, 0>> : x \in Alphabet}] : n \in 0..MaxLen}
IsCall(c) == c[1] = "call"
Plain(w) == \A i \in 1..Len(w) : ~ IsCall(w[i])
HasTie(w) == \E i \in 1..Len(w) : w[i][1] = "t"
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + Sum(s, i + 1)
Size == Sum(voices, 1) + Sum(bodies, 1)

Init == /\ voices \in [1..NVoices -> Words] /\ bodies = <<>> /\ ph = "run" /\ before = 999

At(w, i, f) == i + Len(f) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(f) - 1) = f
\* occurrences in a word, counted from the left without overlap
RECURSIVE Left(_, _, _)
Left(w, f, i) == IF i > Len(w) THEN {} ELSE IF At(w, i, f) THEN {i} \cup Left(w, f, i + Len(f)) ELSE Left(w, f, i + 1)
Occ(f) == UNION {{<<v, i>> : i \in Left(voices[v], f, 1)} : v \in 1..NVoices}
\* maximal runs of adjacent occurrences become one call each
Calls(f, O) == Cardinality({p \in O : <<p[1], p[2] - Len(f)>> \notin O})
Saves(f, O) == Cardinality(O) * Len(f) - Len(f) - Calls(f, O)

Least == IF BUG = "longer" THEN MinBody + 1 ELSE IF BUG = "tiny" THEN 1 ELSE MinBody
Factors ==
  UNION {UNION {{SubSeq(voices[v], i, j) : j \in (i + Least - 1)..Len(voices[v])} : i \in 1..Len(voices[v])} : v \in 1..NVoices}
Beside(f) == BUG = "inside" /\ \E v \in 1..NVoices : \E i \in 2..Len(voices[v]) : IsCall(voices[v][i - 1]) /\ At(voices[v], i, f)
Enough(O) == IF BUG = "single" THEN \E v \in 1..NVoices : Cardinality({p \in O : p[1] = v}) > 1 ELSE Cardinality(O) > 1
Good(f) == Plain(f) /\ f[1][1] # "t" /\ Enough(Occ(f)) /\ ~ Beside(f) /\ (BUG = "early" => Saves(f, Occ(f)) > 2)

RECURSIVE Rewrite(_, _, _, _, _, _)
Rewrite(w, v, i, O, n, k) ==
  IF i > Len(w) THEN <<>>
  ELSE IF <<v, i>> \notin O THEN <<w[i]>> \o Rewrite(w, v, i + 1, O, n, k)
  ELSE LET RECURSIVE Run(_)
           Run(j) == IF <<v, j>> \in O THEN 1 + Run(j + n) ELSE 0
       IN <<<<"call", k>>>> \o Rewrite(w, v, i + Run(i) * n, O, n, k)

Step ==
  /\ ph = "run"
  /\ LET F == {f \in Factors : Good(f)} IN
     IF F = {} THEN ph' = "stop" /\ before' = Size /\ UNCHANGED <<voices, bodies>>
     ELSE \E f \in F :
            LET O == Occ(f) IN
            /\ \A g \in F : Saves(g, Occ(g)) <= Saves(f, O)
            /\ bodies' = Append(bodies, f)
            /\ voices' = [v \in 1..NVoices |-> Rewrite(voices[v], v, 1, O, Len(f), Len(bodies) + 1)]
            /\ before' = Size /\ UNCHANGED ph
Next == Step
Spec == Init /\ [][Next]_vars

NeverLonger == Size <= before
Compact ==
  ph = "stop" =>
    \A v1, v2 \in 1..NVoices : \A i \in 1..Len(voices[v1]) : \A j \in 1..Len(voices[v2]) :
      ((v1 # v2 \/ i + MinBody <= j) /\ i + MinBody - 1 <= Len(voices[v1]) /\ j + MinBody - 1 <= Len(voices[v2]))
        => LET w == SubSeq(voices[v1], i, i + MinBody - 1) IN
           ~ (Plain(w) /\ ~ HasTie(w) /\ w = SubSeq(voices[v2], j, j + MinBody - 1))
=============================================================================
