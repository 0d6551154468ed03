------------------------------- MODULE MVoice -------------------------------
(***************************************************************************)
(* Design model of voice assignment.  Channels 1..NCh are active in some   *)
(* of NSlots time slots, one note each; NVoices voices are left.  The      *)
(* channels are assigned in order, each to the first voice whose channels  *)
(* never sound with it, undoing earlier choices when no voice is left;     *)
(* of the unused voices only the first is tried.  Checked: the search      *)
(* succeeds exactly when some assignment without conflict exists (C09).    *)
(* BUG = "greedy" never undoes a choice; "order" requires the voice of a   *)
(* channel not to be lower than that of the channel before.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NCh, NSlots, NVoices, BUG, EMIT

VARIABLES act,     \* channel -> slots in which it sounds
          asg,     \* voices of the channels assigned so far
          tried,   \* channel -> voices not to be tried again under the present choices
          ph
vars == <<act, asg, tried, ph>>

Slots == 1..NSlots
Conflict(c, d) == act[c] \cap act[d] # {}
Sharing(f) == \A c, d \in 1..NCh : (c # d /\ f[c] = f[d]) => ~ Conflict(c, d)
Shareable == \E f \in [1..NCh -> 1..NVoices] : Sharing(f)

Init == /\ act \in [1..NCh -> SUBSET Slots]
        /\ asg = <<>> /\ tried = [c \in 1..NCh |-> {}] /\ ph = "search"

Used == {asg[i] : i \in 1..Len(asg)}
Valid(c) ==
  LET ok == {v \in 1..NVoices : \A i \in 1..Len(asg) : asg[i] = v => ~ Conflict(c, i)}
      unused == {v \in ok : v \notin Used}
      first == IF unused = {} THEN {} ELSE {CHOOSE v \in unused : \A w \in unused : v <= w}
  IN {v \in ok \cap (Used \cup first) : BUG = "order" => \A i \in 1..Len(asg) : asg[i] <= v} \ tried[c]

Assign ==
  /\ ph = "search" /\ Len(asg) < NCh
  /\ LET c == Len(asg) + 1 IN
     IF Valid(c) # {}
     THEN /\ asg' = Append(asg, CHOOSE v \in Valid(c) : \A w \in Valid(c) : v <= w)
          /\ UNCHANGED <<tried, ph>>
     ELSE IF c = 1 \/ BUG = "greedy"
     THEN /\ ph' = "refused" /\ UNCHANGED <<asg, tried>>
     ELSE \* undo the choice for the channel before
          /\ asg' = SubSeq(asg, 1, c - 2)
          /\ tried' = [tried EXCEPT ![c - 1] = @ \cup {asg[c - 1]}, ![c] = {}]
          /\ UNCHANGED ph
  /\ UNCHANGED act

Emit == EMIT => PrintT(<<"@", act, Shareable>>)
Accept == /\ ph = "search" /\ Len(asg) = NCh /\ ph' = "found" /\ Emit
          /\ UNCHANGED <<act, asg, tried>>
Next == Assign \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

FoundIsSharing == ph = "found" => Sharing(asg)
RefusedOnlyIfNone == ph = "refused" => ~ Shareable
Terminates == <>(ph \in {"found", "refused"})
=============================================================================
