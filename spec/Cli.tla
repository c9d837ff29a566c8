-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* Simulations started from the command line, one after another in one     *)
(* folder:                                                                 *)
(*     python -m hapuamod [-o] [-q] [-v] config                            *)
(* While it runs, a simulation tells things, each at a level.  What is at  *)
(* or above the threshold of the run goes to the console, and to the end   *)
(* of the log file that is named after the configuration, in the folder    *)
(* the simulation is started from.  Asked for quiet, that is warnings and  *)
(* worse (whatever else is asked for); asked for verbose, everything;      *)
(* otherwise all but what is for debugging.  A line is the level, and then *)
(* what is told.  How time goes by is told, as information, by the rule of *)
(* all records: once the interval for it has passed, and then on.          *)
(***************************************************************************)
EXTENDS Clock
Debug == 10
Information == 20
Warn == 30
Threshold(quiet, verbose) == IF quiet THEN Warn ELSE IF verbose THEN Debug ELSE Information
\* what of the things told is to be read (sequences of records with a level)
Heard(told, th) == SelectSeq(told, LAMBDA m : m.level >= th)
\* the steps after which progress is told: times reached, interval
RECURSIVE Progress(_, _, _, _)
Progress(times, k, next, int) ==
  IF k >= Size(times) THEN << >>
  ELSE IF Due(times[k], next) THEN << times[k] >> \o Progress(times, k + 1, next + int, int) ELSE Progress(times, k + 1, next, int)
\* s occurs in t, in order and without anything of its kind in between left out: as t holds more (of other modules)
RECURSIVE Within(_, _)
Within(s, t) == IF s = << >> THEN TRUE ELSE IF t = << >> THEN FALSE ELSE IF Head(s) = Head(t) THEN Within(Tail(s), Tail(t)) ELSE Within(s, Tail(t))
\* the log file of a configuration
LogName(stem) == stem \o "_log.txt"
=============================================================================
