-------------------------------- MODULE TrCli -------------------------------
(* Conformance of python -m hapuamod: simulations run one after another.     *)
EXTENDS Tr, Cli
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
Objects(f) == IF Size(f) = 0 THEN << >> ELSE f
Texts(lines) == [k \in 1..Len(lines) |-> lines[k].text]
Text(lines) == [k \in 1..Len(lines) |-> [level |-> lines[k].level, text |-> lines[k].text]]
\* r: a run.  told: what the model tells, in order; new: the lines added to its log; console: lines of text
RunClauses(r) ==
  LET th == Threshold(r.q, r.v)
      told == Objects(r.told)
      heard == Heard(told, th)
      new == Text(Objects(r.new))
      shown == Texts(Objects(r.console))
      loud == {heard[k].text : k \in 1..Len(heard)}
      mute == {told[k].text : k \in 1..Len(told)} \ loud
      fine == ~r.fails
  IN IF r.usage THEN [ command_line_Runs |-> r.failed, command_line_LogNamed |-> Size(r.files) = 0, command_line_LogKept |-> r.kept ]
     ELSE
     [ command_line_Runs |-> r.failed = r.fails,
       command_line_LogNamed |-> r.there /\ \A k \in Dom(r.files) : r.files[k] = r.stem \o "_log.txt",
       command_line_LogKept |-> r.kept,
       command_line_LogLevel |-> \A k \in 1..Len(new) : new[k].level >= th,
       command_line_LogTold |-> Within(Text(heard), new),
       command_line_ConsoleLevel |-> \A k \in 1..Len(shown) : shown[k] \notin mute,
       command_line_ConsoleTold |-> Within(Texts(heard), shown),
       command_line_Overwrites |-> ~fine \/ r.replaced,
       command_line_Progress |-> ~fine \/ th > Information \/ (LET p == Progress(r.times, 0, r.int, r.int) IN VNear(r.progress, V([k \in 0..(Len(p)-1) |-> p[k+1]]), 0, 1/100)) ]
Judge(e) ==
  IF "exc" \in DOMAIN e THEN Report(e, {"command_line_Completes"}, e.msg)
  ELSE LET f == UNION {FalseIn(RunClauses(e.out[k])) : k \in 1..Len(e.out)} IN
       /\ Report(e, f, [n |-> Len(e.out)])
       /\ \A k \in 1..Len(e.out) : Tag(e, IF e.out[k].failed THEN "cli: fails" ELSE IF e.out[k].q THEN "cli: quiet" ELSE IF e.out[k].v THEN "cli: verbose" ELSE "cli: neither")
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
