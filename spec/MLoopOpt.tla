------------------------------ MODULE MLoopOpt ------------------------------
(***************************************************************************)
(* Design model of loop compression.  Voices are words over a command      *)
(* alphabet.  A step takes any factor of the voices, any set of places     *)
(* where it occurs, and replaces runs of adjacent places by loop calls of  *)
(* one new sequence.  Checked: the expansion of the compressed song is the *)
(* original song, and the calls are executable by the driver (C01, C02).   *)
(* BUG selects a broken design, to show the invariants bite:               *)
(*   "none", "overlap" (overlapping places are all counted), "nested" (a factor may hold   *)
(*   calls), "short" (a run is replaced by a call of one repeat less)      *)
(* The alphabet holds an ineligible command "s" (a pitch slide) that is    *)
(* never the last of an extracted sequence, and "t" (a tie), never first.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen, NVoices, MinBody, MaxSteps, BUG

VARIABLES orig, voices, bodies, steps
vars == <<orig, voices, bodies, steps>>

\* a command is <<name, 0, 0>>, a loop call <<"call", sequence, repeats>>
Words == UNION {[1..n -> {<<x, 0, 0>> : x \in Alphabet}] : n \in 0..MaxLen}
IsCall(c) == c[1] = "call"
Plain(w) == \A i \in 1..Len(w) : ~ IsCall(w[i])

Init == /\ orig \in [1..NVoices -> Words]
        /\ voices = orig /\ bodies = <<>> /\ steps = 0

At(w, i, f) == i + Len(f) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(f) - 1) = f

\* places <<voice, index>> of factor f
Places(f) == UNION {{<<v, i>> : i \in {j \in 1..Len(voices[v]) : At(voices[v], j, f)}} : v \in 1..NVoices}

NoOverlap(P, n) == \A p, q \in P : (p # q /\ p[1] = q[1]) => (p[2] + n <= q[2] \/ q[2] + n <= p[2])

\* replace the places of P in word w of voice v by calls of sequence k
RECURSIVE Rewrite(_, _, _, _, _, _)
Rewrite(w, v, i, P, n, k) ==
  IF i > Len(w) THEN <<>>
  ELSE IF <<v, i>> \notin P THEN <<w[i]>> \o Rewrite(w, v, i + 1, P, n, k)
  ELSE LET RECURSIVE Run(_)
           Run(j) == IF <<v, j>> \in P THEN 1 + Run(j + n) ELSE 0
           r == Run(i)
           c == IF BUG = "short" /\ r > 1 THEN r - 1
                ELSE IF BUG = "overlap" THEN r + Cardinality({j \in (i+1)..(i+r*n-1) : (j - i) % n # 0 /\ <<v, j>> \in P})
                ELSE r
       IN <<<<"call", k, c>>>> \o Rewrite(w, v, i + r * n, P, n, k)

MayStart(c) == c[1] # "t"
MayEnd(c) == c[1] # "s"

Extract ==
  /\ steps < MaxSteps
  /\ \E v \in 1..NVoices : \E i \in 1..Len(voices[v]) : \E n \in MinBody..(Len(voices[v]) - i + 1) :
       LET f == SubSeq(voices[v], i, i + n - 1) IN
       /\ BUG = "nested" \/ Plain(f)
       /\ MayStart(f[1]) /\ MayEnd(f[n])
       /\ \E P \in SUBSET Places(f) :
            /\ Cardinality(P) >= 2
            /\ BUG = "overlap" \/ NoOverlap(P, n)
            /\ bodies' = Append(bodies, f)
            /\ voices' = [x \in 1..NVoices |-> Rewrite(voices[x], x, 1, P, n, Len(bodies) + 1)]
  /\ steps' = steps + 1
  /\ UNCHANGED orig

Next == Extract
Spec == Init /\ [][Next]_vars

RECURSIVE Times(_, _)
Times(w, n) == IF n = 0 THEN <<>> ELSE w \o Times(w, n - 1)
RECURSIVE Expand(_)
Expand(w) == IF w = <<>> THEN <<>>
             ELSE (IF IsCall(Head(w)) THEN Times(bodies[Head(w)[2]], Head(w)[3]) ELSE <<Head(w)>>)
                  \o Expand(Tail(w))

Lossless == \A v \in 1..NVoices : Expand(voices[v]) = orig[v]
SlidesWhole == \A k \in 1..Len(bodies) : MayStart(bodies[k][1]) /\ MayEnd(bodies[k][Len(bodies[k])])
Executable ==
  /\ \A k \in 1..Len(bodies) : bodies[k] # <<>> /\ Plain(bodies[k])
  /\ \A k \in 1..Len(bodies) : \E v \in 1..NVoices : \E i \in 1..Len(voices[v]) :
        IsCall(voices[v][i]) /\ voices[v][i][2] = k
=============================================================================
