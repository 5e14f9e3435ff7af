-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Two histories that have to be the same: step by step, every observation *)
(* (times, counters, populations, data) as exact text.                     *)
(*  a   the reference history, one text per step                           *)
(* Each line is one step of the other history; "skip" lines do not count.  *)
(***************************************************************************)
EXTENDS OpTrace
WStart(cfg) == [a |-> cfg.a, i |-> 1]
WApply(s, ln) ==
  Verify([s EXCEPT !.i = @ + 1], <<
    <<s.i <= Len(s.a), "longer">>,
    <<s.i <= Len(s.a) => s.a[s.i] = ln.x, ln.clause>>,
    <<ln.last => s.i = Len(s.a), "shorter">> >>)
=============================================================================
