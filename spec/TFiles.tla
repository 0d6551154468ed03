------------------------------- MODULE TFiles -------------------------------
(***************************************************************************)
(* The tool among the user's files (C27).  The state is a folder tree:     *)
(* what every path holds, contents numbered.  A command names the one file *)
(* it may write (none for dump_midi).  A step of the tool may give that    *)
(* file another content - only if the command succeeds - and has no other  *)
(* effect on the tree.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.CASES)
Cases == D.cases
VARIABLES cid, i,      \* history and steps done
          tree,        \* path |-> content
          err
vars == <<cid, i, tree, err>>
Steps == Cases[cid].steps

\* trees are recorded as sequences of records [p, c]
Tree(s) == [q \in {s[k].p : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].p = q].c]

Allowed(st, old, new) ==
  \/ new = old
  \/ /\ st.ok /\ st.out # ""
     /\ DOMAIN new = DOMAIN old \cup {st.out}
     /\ \A q \in DOMAIN new \ {st.out} : new[q] = old[q]

Blame(st, old, new) ==
  [gone |-> DOMAIN old \ DOMAIN new, added |-> DOMAIN new \ DOMAIN old,
   changed |-> {q \in DOMAIN old \cap DOMAIN new : old[q] # new[q]}]

Init == cid \in 1..Len(Cases) /\ i = 0 /\ tree = Tree(Cases[cid].start) /\ err = <<>>
Step ==
  /\ err = <<>> /\ i < Len(Steps)
  /\ LET st == Steps[i + 1]  new == Tree(st.after) IN
     /\ err' = IF Allowed(st, tree, new)
               THEN IF st.ok /\ st.out # "" /\ st.out \notin DOMAIN new THEN <<"output missing", st.cmd>> ELSE <<>>
               ELSE <<"more than the output changed", st.cmd, st.ok, Blame(st, tree, new)>>
     /\ tree' = new
  /\ i' = i + 1 /\ UNCHANGED cid
Finish == err = <<>> /\ i = Len(Steps) /\ i' = i + 1 /\ PrintT(<<"@", cid, i>>) /\ UNCHANGED <<cid, tree, err>>
Done == (err # <<>> \/ i > Len(Steps)) /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
OnlyOutput == err = <<>>
=============================================================================
