----------------------------- MODULE Instances -----------------------------
(***************************************************************************)
(* Clients, each with a reader, writer, tree or property codec of its own. *)
(* A client makes Calls calls; each does Ops operations on the stream it   *)
(* was given and then returns a value.  The operations of different        *)
(* clients interleave in any way, and a client holds on to every value it  *)
(* got.                                                                    *)
(*                                                                         *)
(* What a call returns is prepared in some memory.  Where that memory may  *)
(* be is what the properties below restrict: Space is "call" (new memory   *)
(* for every call), "instance" (one for all calls of a client) or          *)
(* "package" (one for all clients), and Copies says whether the value      *)
(* returned is a copy of it.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Clients, Calls, Ops, Space, Copies

VARIABLES mem,   \* memory by place: sequence of marks
          op,    \* operations done in the current call, by client
          out    \* values returned, by client: [at |-> place, v |-> content]
ivars == <<mem, op, out>>

Place(p, c) == CASE Space = "call" -> <<p, c>>
                 [] Space = "instance" -> <<p, 0>>
                 [] Space = "package" -> <<0, 0>>
Places == {Place(p, c) : p \in Clients, c \in 1..Calls}

\* What call c of client p returns when nobody else is around.
Alone(p, c) == [i \in 1..Ops |-> <<p, c, i>>]

IInit == /\ mem = [x \in Places |-> <<>>]
         /\ op = [p \in Clients |-> 0]
         /\ out = [p \in Clients |-> <<>>]

Current(p) == Len(out[p]) + 1
Running(p) == Current(p) <= Calls

\* One operation on the stream; the last one of a call returns.
Operate(p) ==
  /\ Running(p)
  /\ LET at == Place(p, Current(p))
         before == IF op[p] = 0 THEN <<>> ELSE mem[at]
         now == Append(before, <<p, Current(p), op[p] + 1>>)
     IN /\ mem' = [mem EXCEPT ![at] = now]
        /\ IF op[p] + 1 < Ops
           THEN op' = [op EXCEPT ![p] = @ + 1] /\ UNCHANGED out
           ELSE /\ op' = [op EXCEPT ![p] = 0]
                /\ out' = [out EXCEPT ![p] = Append(@, [at |-> at, v |-> now])]

\* What a client sees in a value it holds.
Seen(h) == IF Copies THEN h.v ELSE mem[h.at]

\* Every call returns what it returns alone.
Independent == \A p \in Clients : \A c \in 1..Len(out[p]) : out[p][c].v = Alone(p, c)
\* Every value stays what it was.
Stable == \A p \in Clients : \A c \in 1..Len(out[p]) : Seen(out[p][c]) = out[p][c].v
=============================================================================
