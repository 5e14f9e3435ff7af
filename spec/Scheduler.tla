------------------------------ MODULE Scheduler ------------------------------
(***************************************************************************)
(* The event scheduler (PriorityQueue): it keeps, for every queue, the     *)
(* latest time at which it was scheduled, until it is extracted.           *)
(***************************************************************************)
EXTENDS OpTrace

NotIn == -1
Empty(n) == [k \in 1..n |-> NotIn]
Scheduled(m) == {k \in DOMAIN m : m[k] # NotIn}
Earliest(m) == {k \in Scheduled(m) : \A j \in Scheduled(m) : m[k] <= m[j]}
Push(m, t, k) == [m EXCEPT ![k] = t]
Extract(m, k) == [m EXCEPT ![k] = NotIn]

RECURSIVE PushAll(_, _)
PushAll(m, ks) == IF ks = <<>> THEN m
                  ELSE PushAll(Push(m, Head(ks).t, Head(ks).k), Tail(ks))

SStart(cfg) == PushAll(Empty(cfg.n), cfg.keys)
SApply(m, ln) ==
  CASE ln.op = "push" -> Verify(Push(m, ln.t, ln.k), <<>>)
    [] ln.op = "pop" ->
         IF ln.ret = <<>>
         THEN Verify(m, << <<Scheduled(m) = {}, "pop-lost-an-entry">> >>)
         ELSE LET k == ln.ret[2]
                  t == ln.ret[1]
              IN IF k \notin Scheduled(m) THEN Verify(m, << <<FALSE, "pop-not-scheduled">> >>)
                 ELSE Verify(Extract(m, k),
                        << <<t = m[k], "pop-outdated">>, <<k \in Earliest(m), "pop-not-earliest">> >>)
=============================================================================
