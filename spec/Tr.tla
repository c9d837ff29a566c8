--------------------------------- MODULE Tr ---------------------------------
(***************************************************************************)
(* Shared part of the trace specifications.  A trace is a sequence of      *)
(* events recorded from the implementation; event k is judged by the       *)
(* action of the specification with the same name.  The verdict is total:  *)
(* every event yields the set of clauses it breaks, printed as @@FAIL.     *)
(***************************************************************************)
EXTENDS Arr
RT == 1/1000000000          \* relative and absolute comparison tolerance
AT == 1/1000000000
Eq(a, b)  == Near(a, b, RT, AT)
VEq(f, g) == VNear(f, g, RT, AT)
Report(e, fails, info) ==
  IF fails = {} THEN TRUE ELSE Say("FAIL", [id |-> e.id, clauses |-> fails, info |-> info])
Tag(e, tag) == Say("TAG", [id |-> e.id, tag |-> tag])
=============================================================================
