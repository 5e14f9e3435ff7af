---------------------------- MODULE MCScheduler ----------------------------
(***************************************************************************)
(* The array heap with lazy deletion, operation by operation, refines the  *)
(* abstract scheduler: whatever it hands out is an earliest latest entry.  *)
(* Exhaustive over all operation sequences up to the bounds; also prints   *)
(* every sequence of full length (Gen) for replay on the real scheduler.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NQ, NT, LEN, Emitting
VARIABLES heap,   \* sequence of entries [t, k], an array heap
          latest, \* per queue the time of its valid entry, or NotIn
          m,      \* the abstract scheduler
          ops,    \* operations so far
          out     \* result of the last pop, or "-"
vars == <<heap, latest, m, ops, out>>
NotIn == -1
Scheduled(mm) == {k \in DOMAIN mm : mm[k] # NotIn}
Earliest(mm) == {k \in Scheduled(mm) : \A j \in Scheduled(mm) : mm[k] <= mm[j]}

Swap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
RECURSIVE Up(_, _)       \* move the entry at i towards the root
Up(h, i) == IF i = 1 \/ h[i].t >= h[i \div 2].t THEN h ELSE Up(Swap(h, i, i \div 2), i \div 2)
RECURSIVE Down(_, _)     \* let the entry at i sink to a leaf, then move it up
Down(h, i) ==
  LET n == Len(h) IN
  IF 2 * i > n THEN Up(h, i)
  ELSE LET c == IF 2 * i + 1 <= n /\ ~(h[2 * i].t < h[2 * i + 1].t) THEN 2 * i + 1 ELSE 2 * i
       IN Down(Swap(h, i, c), c)
Insert(h, e) == Up(Append(h, e), Len(h) + 1)
RemoveMin(h) == LET n == Len(h) IN
  IF n = 1 THEN <<>> ELSE Down([i \in 1..(n - 1) |-> IF i = 1 THEN h[n] ELSE h[i]], 1)
RECURSIVE Skip(_, _)     \* drop entries that are out of date
Skip(h, la) == IF h = <<>> THEN h ELSE IF la[h[1].k] = h[1].t THEN h ELSE Skip(RemoveMin(h), la)

Init == heap = <<>> /\ latest = [k \in 1..NQ |-> NotIn] /\ m = [k \in 1..NQ |-> NotIn]
        /\ ops = <<>> /\ out = "-"
DoPush(t, k) == /\ heap' = Insert(heap, [t |-> t, k |-> k])
                /\ latest' = [latest EXCEPT ![k] = t]
                /\ m' = [m EXCEPT ![k] = t]
                /\ ops' = Append(ops, <<t, k>>) /\ out' = "-"
DoPop == LET h == Skip(heap, latest) IN
  /\ ops' = Append(ops, <<>>)
  /\ IF h = <<>> THEN /\ heap' = h /\ out' = IF Scheduled(m) = {} THEN "none" ELSE "lost"
                      /\ UNCHANGED <<latest, m>>
     ELSE LET e == h[1] IN
          /\ heap' = RemoveMin(h)
          /\ latest' = [latest EXCEPT ![e.k] = NotIn]
          /\ out' = IF e.k \in Earliest(m) /\ m[e.k] = e.t THEN "ok" ELSE "wrong"
          /\ m' = [m EXCEPT ![e.k] = NotIn]
Next == Len(ops) < LEN /\ ((\E t \in 1..NT, k \in 1..NQ : DoPush(t, k)) \/ DoPop)
Spec == Init /\ [][Next]_vars

HeapOrder == \A i \in 2..Len(heap) : heap[i \div 2].t <= heap[i].t
Refines == out \notin {"lost", "wrong"}
Agrees == latest = m
HoldsAll == \A k \in Scheduled(m) : \E i \in DOMAIN heap : heap[i] = [t |-> m[k], k |-> k]
Gen == (Emitting /\ Len(ops) = LEN) => PrintT(<<"GEN", ToJson(ops)>>)
View == <<heap, latest, m, out, Len(ops)>>
=============================================================================
