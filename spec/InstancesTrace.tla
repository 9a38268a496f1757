--------------------------- MODULE InstancesTrace ---------------------------
(***************************************************************************)
(* Recorded runs of clients side by side.  A session begins with what each *)
(* client's calls return alone; then come, in the order they happened,     *)
(* stream operations, returns (with digests of the answer and of every     *)
(* value handed out), later looks at those values and at the arguments.    *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES l, alone, args, held
vars == <<l, alone, args, held>>
Init == l = 1 /\ alone = <<>> /\ args = <<>> /\ held = <<>>

\* e.alone: by client, by call, [d |-> digest, parts |-> digests];
\* e.args: by client, digests of its arguments.
Begin(e) == /\ e.e = "begin"
            /\ alone' = e.alone /\ args' = e.args
            /\ held' = [p \in 1..Len(e.alone) |-> <<>>]
Calling(p) == Len(held[p]) + 1
Operation(e) == e.e = "io" /\ Calling(e.p) <= Len(alone[e.p]) /\ UNCHANGED <<alone, args, held>>
Return(e) == /\ e.e = "ret"
             /\ Calling(e.p) <= Len(alone[e.p])
             /\ LET a == alone[e.p][Calling(e.p)] IN e.d = a.d /\ e.parts = a.parts
             /\ held' = [held EXCEPT ![e.p] = Append(@, e.parts)]
             /\ UNCHANGED <<alone, args>>
\* A look at everything call e.c of client e.p returned.
Look(e) == /\ e.e = "look"
           /\ e.parts = held[e.p][e.c]
           /\ UNCHANGED <<alone, args, held>>
Args(e) == /\ e.e = "args"
           /\ e.args = args[e.p]
           /\ UNCHANGED <<alone, args, held>>
\* Everybody is done.
End(e) == /\ e.e = "end"
          /\ \A p \in 1..Len(alone) : Len(held[p]) = Len(alone[p])
          /\ UNCHANGED <<alone, args, held>>
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Begin(e) \/ Operation(e) \/ Return(e) \/ Look(e) \/ Args(e) \/ End(e)
Spec == Init /\ [][Next]_vars
=============================================================================
