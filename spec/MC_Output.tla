------------------------------ MODULE MC_Output -----------------------------
(* Every order of creating, writing, reading two output files, with every   *)
(* answer to the question whether to overwrite, and ends of the program     *)
(* without notice.  Records are tokens; prev remembers the files before.    *)
EXTENDS Output
CONSTANTS Depth, Emit
VARIABLES files, prev, n, ops, last
vars == <<files, prev, n, ops, last>>
Names == {"a", "b"}
None == [absent |-> TRUE]
Answers == {"y", "n", "YES", "", "eof"}
Init == files = [f \in Names |-> None] /\ prev = files /\ n = 1 /\ ops = << >> /\ last = [op |-> "init"]
Exists(f) == "recs" \in DOMAIN files[f]
Do(o, fs) == /\ Len(ops) < Depth /\ prev' = files /\ files' = fs /\ n' = n + 1 /\ ops' = Append(ops, o) /\ last' = o
New(f, ow, ans) == /\ (ow => ans = "n") /\ (~Exists(f) /\ ~ow => ans = "n")
                   /\ Do([op |-> "new", f |-> f, ow |-> ow, ans |-> ans],
                         IF Replaces(Exists(f), ow, ans) THEN [files EXCEPT ![f] = [recs |-> << >>, head |-> n]] ELSE files)
Write(f) == Exists(f) /\ Len(files[f].recs) < 3 /\ Do([op |-> "write", f |-> f], [files EXCEPT ![f].recs = Append(@, n)])
Read(f) == Exists(f) /\ Len(files[f].recs) > 0 /\ last.op # "read" /\ Do([op |-> "read", f |-> f], files)
Kill == last.op \notin {"kill", "init"} /\ Do([op |-> "kill"], files)
Next == \/ \E f \in Names : Write(f) \/ Read(f) \/ \E ow \in BOOLEAN, a \in Answers : New(f, ow, a)
        \/ Kill
Spec == Init /\ [][Next]_vars
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* nothing written is lost or changed, unless replacing it was asked for or confirmed
Protected == \A f \in Names : "recs" \in DOMAIN prev[f] =>
  \/ Exists(f) /\ files[f].head = prev[f].head /\ IsPrefix(prev[f].recs, files[f].recs)
  \/ last.op = "new" /\ last.f = f /\ (last.ow \/ last.ans \in Yes)
\* one operation touches one file
Separate == \A f \in Names : files[f] # prev[f] => last.op \in {"new", "write"} /\ last.f = f
Durable == last.op \in {"kill", "read"} => files = prev
Emitted == Len(ops) < Depth \/ Emit = 0 \/ (LET h == Sum([k \in 1..Len(ops) |-> k * (IF ops[k].op = "new" THEN (IF ops[k].ow THEN 2 ELSE IF ops[k].ans \in Yes THEN 3 ELSE 5) ELSE IF ops[k].op = "write" THEN 7 ELSE IF ops[k].op = "read" THEN 11 ELSE 13)]) IN h % Emit # 0)
           \/ Say("SCN", [ops |-> ops])
Reached == Len(ops) < Depth \/ (Len(ops) + n) % 2 = 2 \/
   ((last.op = "new" /\ files # prev /\ ~last.ow /\ "recs" \in DOMAIN prev[last.f] => Say("SEEN", "confirmed")) /\ (last.op = "new" /\ files = prev => Say("SEEN", "refused"))
    /\ (last.op = "kill" => Say("SEEN", "killed")) /\ (last.op = "write" => Say("SEEN", "written")))
=============================================================================
