------------------------------ MODULE MC_Clock ------------------------------
(* The main loop over every sequence of steps morphology may ask for,       *)
(* closures, breaches and failures of the unsteady hydraulics.              *)
EXTENDS Clock
CONSTANTS Ends, Los, Ratios, Hyds, Outs, Emit
VARIABLES cfg, now, plan, steps, outNext, tsNext, outs, tss, closed, old
vars == <<cfg, now, plan, steps, outNext, tsNext, outs, tss, closed, old>>
End == cfg.end
Init == /\ cfg \in [end : Ends, lo : Los, ratio : Ratios, hyd : Hyds, out : Outs, ts : Outs]
        /\ now = 0 /\ plan = cfg.lo /\ steps = << >>
        /\ outNext = cfg.out /\ tsNext = cfg.ts /\ outs = <<0>> /\ tss = <<0>> /\ closed = FALSE /\ old = 0
\* morphology stays within its bounds; at the end of the run it is handed, and may keep, less than the shortest step
Planned == Cut(plan, now, End)
Step(d, c, b, f) ==
  LET take == Cut(d, now, End)  t == now + take IN
  /\ now < End
  /\ now' = t /\ plan' = take /\ old' = now
  /\ steps' = Append(steps, [d |-> d, close |-> c, breach |-> b, fail |-> f])
  /\ outNext' = IF Due(t, outNext) THEN outNext + cfg.out ELSE outNext
  /\ tsNext' = IF Due(t, tsNext) THEN tsNext + cfg.ts ELSE tsNext
  /\ outs' = IF Due(t, outNext) THEN Append(outs, t) ELSE outs
  /\ tss' = IF Due(t, tsNext) THEN Append(tss, t) ELSE tss
  /\ closed' = IF b THEN FALSE ELSE closed \/ c
  /\ UNCHANGED cfg
Next == \E d \in cfg.lo .. (cfg.lo * cfg.ratio) : \E c, b, f \in BOOLEAN :
          /\ (c => ~closed) /\ (f => d = cfg.lo) /\ (b => d = cfg.lo * cfg.ratio)
          /\ Step(d, c, b, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Within == now <= End /\ (now < End => plan > 0)
Forward == steps = << >> \/ now > old
HydSound == now < End => LET h == HydTimes(now, Planned, cfg.hyd) IN
  /\ h[0] > now /\ Last(h) <= End /\ (\A k \in 1..(Size(h)-1) : REq(h[k] - h[k-1], cfg.hyd))
  /\ (Last(h) > now + Planned - cfg.hyd \/ Size(h) = 1)
Recorded(r, int) ==
  /\ r[1] = 0 /\ \A k \in 2..Len(r) : r[k] > r[k-1] /\ r[k] >= (k-1) * int
  \* no step is longer than the interval: one record in every interval, as soon as it can be
  /\ (cfg.lo * cfg.ratio <= int) =>
        /\ Len(r) = (now \div int) + 1
        /\ \A k \in 2..Len(r) : r[k] < (k-1) * int + (cfg.lo * cfg.ratio)
Records == Recorded(outs, cfg.out) /\ Recorded(tss, cfg.ts)
\* what is recorded stays
Kept == [][Len(outs') >= Len(outs) /\ SubSeq(outs', 1, Len(outs)) = outs]_vars
Ends_ == <>(now = End)
Emitted == now < End \/ Emit = 0 \/ ((Len(steps) * 7 + cfg.out * 5 + cfg.ts * 3 + cfg.hyd + (IF closed THEN 1 ELSE 0) + (IF steps[1].fail THEN 11 ELSE 0) + Len(outs) + steps[Len(steps)].d * 13) % Emit # 0)
           \/ Say("SCN", [cfg |-> cfg, steps |-> steps])
Reached == now < End \/ (Len(steps) + outNext + tsNext) % 5 # 0 \/ (((steps[Len(steps)].d > now - old) => Say("SEEN", "cut")) /\ (Len(outs) > 2 => Say("SEEN", "records"))
                           /\ (closed => Say("SEEN", "closed")) /\ ((Len(outs) < Len(steps)) => Say("SEEN", "between records"))
                           /\ ((\E k \in 1..Len(steps) : steps[k].breach) => Say("SEEN", "breach")))
=============================================================================
