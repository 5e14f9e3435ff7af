------------------------------ MODULE QueueNet ------------------------------
(***************************************************************************)
(* The event semantics of queueing-tool: stand-alone queues of every kind  *)
(* (infinite capacity, finite capacity, terminal, resource, information)   *)
(* and networks of them.                                                   *)
(*                                                                         *)
(* The specification is functional: an instance (one stand-alone queue, or *)
(* one network) is a record s, and every transition maps an "evaluation"   *)
(*        E = [s: instance, h: bookkeeping of the environment, bad: name]  *)
(* to the SET of evaluations it can lead to.  The environment -- what an   *)
(* arrival function, a service function or an agent's destination choice   *)
(* returns, and what the callbacks observe -- enters only through the      *)
(* constant operators DrawArr, DrawSvc, DrawDest and Emit, so the very     *)
(* same transitions are                                                    *)
(*   - explored exhaustively (MCQueue, MCNet: draws are nondeterministic), *)
(*   - used to generate behaviours for replay (GenNet),                    *)
(*   - used to validate traces recorded from the real code (TraceNet:      *)
(*     draws are read off the trace and callbacks are checked against it). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  DrawArr(_, _, _),      \* (E, queue, now)        -> set of [e, v]
  DrawSvc(_, _, _, _),   \* (E, queue, agent, now) -> set of [e, v]
  DrawDest(_, _, _),     \* (E, queue, agent)      -> set of [e, v]
  Emit(_, _, _, _),      \* (E, kind, queue, agent) -> E
  Retime(_)              \* T -> [lo, hi]: just after T

INF  == 1000000000       \* larger than every time, size and count
NONE == -1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S)   == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RemoveAt(sq, i) == TLCEval([j \in 1..(Len(sq) - 1) |-> IF j < i THEN sq[j] ELSE sq[j + 1]])

(***************************************************************************)
(* States.                                                                 *)
(*  queue: cls   "Q" infinite, "L" finite, "R" resource, "I" information,  *)
(*               "N" terminal                                              *)
(*         c, buf, cap, dt   servers, buffer, arrival cap, stopping time   *)
(*         aty   kind of the agents it creates: "A" (destinations chosen   *)
(*               by the environment), "D" (default choice), "G" (greedy),  *)
(*               "R" (resource), "I" (information)                         *)
(*         now, nct   time of the last event; last drawn outside arrival   *)
(*         active, oarr, narr, ndep, nsys, nblk                            *)
(*         line  agents waiting, in order                                  *)
(*         arrs  agents on their way in:  records [t, a]                   *)
(*         deps  agents in service: records [lo, hi, a]; lo = hi is an     *)
(*               exact departure time, lo < hi one known to be in (lo,hi]  *)
(*         coll, data, gen   data collection                               *)
(*         maxs, over   resource overflow accounting                       *)
(*         net   information about every queue: [t, c, ld]                 *)
(*  agent: ty, blk (times blocked), has (a resource), vis (open data row), *)
(*         net (information)                                               *)
(***************************************************************************)
NoInfo == [t |-> NONE, c |-> NONE, ld |-> NONE]
Load(n, c) == IF c >= INF THEN 0 ELSE (n * 5040) \div Max2(c, 1)

NewQueue(cfg, zero, n) ==
  [cls |-> cfg.cls, c |-> cfg.c, buf |-> cfg.buf, cap |-> cfg.cap, dt |-> cfg.dt,
   aty |-> cfg.aty, now |-> zero, nct |-> zero, active |-> FALSE,
   oarr |-> 0, narr |-> 0, ndep |-> 0, nsys |-> 0, nblk |-> 0,
   line |-> <<>>, arrs |-> {}, deps |-> {},
   coll |-> cfg.coll, data |-> <<>>, gen |-> 0,
   maxs |-> 2 * cfg.c, over |-> 0,
   net |-> [i \in 1..n |-> NoInfo]]

NewInstance(cfg) ==
  [kind |-> cfg.kind,            \* "queue" or "net"
   q    |-> [k \in 1..Len(cfg.qs) |-> NewQueue(cfg.qs[k], cfg.zero, Len(cfg.qs))],
   e    |-> [k \in 1..Len(cfg.qs) |-> cfg.qs[k].edge],   \* <<source, target, type>>
   ag   |-> << >>,
   pos  |-> [k \in 1..Len(cfg.qs) |-> TRUE],     \* has a positive routing probability
   t    |-> cfg.zero, zero |-> cfg.zero, nev |-> 0, inited |-> FALSE,
   maxa |-> cfg.maxa, bas |-> cfg.bas]

NewAgent(ty, n) == [ty |-> ty, blk |-> 0, has |-> FALSE, vis |-> <<0, 0>>,
                    net |-> IF ty = "I" THEN [i \in 1..n |-> NoInfo] ELSE <<>>]

SetQ(E, k, q) == [E EXCEPT !.s.q[k] = q]
SetA(E, a, r) == [E EXCEPT !.s.ag =
                    TLCEval([x \in (DOMAIN E.s.ag) \cup {a} |-> IF x = a THEN r ELSE E.s.ag[x]])]
DelA(E, a)    == [E EXCEPT !.s.ag = TLCEval([x \in (DOMAIN E.s.ag) \ {a} |-> E.s.ag[x]])]
Bad(E, name)  == IF E.bad = "" THEN [E EXCEPT !.bad = name] ELSE E

(* If any candidate is still consistent, keep exactly the consistent ones. *)
Good(Es) == LET g == {e \in Es : e.bad = ""}
            IN IF g # {} THEN g ELSE {CHOOSE e \in Es : TRUE}

ArrT(q) == MinOf({x.t : x \in q.arrs})
DepT(q) == MinOf({IF x.lo < x.hi THEN x.lo + 1 ELSE x.lo : x \in q.deps})
NextT(q) == IF q.cls = "N" THEN INF ELSE Min2(ArrT(q), DepT(q))
\* 0 nothing, 1 arrival, 2 departure; an arrival goes first in a tie
NextKind(q) == IF q.cls = "N" THEN 0
               ELSE IF DepT(q) < ArrT(q) THEN 2
               ELSE IF ArrT(q) < INF THEN 1 ELSE 0
InService(q) == q.nsys - Len(q.line)
AtCapacity(q) == q.cls \in {"L", "R", "I"} /\ q.nsys >= q.c + q.buf
Total(q) == Cardinality(q.arrs) + q.nsys
Finite(q) == q.cls \in {"L", "R", "I"}

OutEdges(s, v) == {k \in DOMAIN s.e : s.e[k][1] = v}
\* what an agent leaving edge k may choose by default (a single out-edge is always taken)
Reachable(s, k) ==
  LET out == OutEdges(s, s.e[k][2]) IN
  IF Cardinality(out) = 1 THEN out ELSE {j \in out : s.pos[j]}
\* what a greedy agent must choose: the first of the shortest lines
GreedyChoice(s, k) ==
  LET out == OutEdges(s, s.e[k][2])
      m == MinOf({Len(s.q[j].line) : j \in out})
  IN MinOf({j \in out : Len(s.q[j].line) = m})

(***************************************************************************)
(* Data rows: <<arrival, start, departure, waiting, present>>              *)
(***************************************************************************)
OpenRow(q, ag) == ag.vis[2] > 0 /\ ag.vis[1] = q.gen
PutRow(E, k, a, row) ==      \* append a row, make it the agent's open row
  LET q == E.s.q[k]
      E1 == SetQ(E, k, [q EXCEPT !.data = Append(@, [a |-> a, r |-> row])])
  IN SetA(E1, a, [E.s.ag[a] EXCEPT !.vis = <<q.gen, Len(q.data) + 1>>])
WriteRow(E, k, a, col, t) ==
  LET q == E.s.q[k] IN
  IF q.coll /\ OpenRow(q, E.s.ag[a])
  THEN [E EXCEPT !.s.q[k].data[E.s.ag[a].vis[2]].r[col] = t]
  ELSE E

(***************************************************************************)
(* What agents do to queues (and learn from them) when they enter (0),     *)
(* start service (1) and depart (2).                                       *)
(***************************************************************************)
SetResources(q, n) == [q EXCEPT !.c = n, !.over = IF n > q.maxs THEN @ + 1 ELSE @]

AgentActs(E, k, a, when) ==
  LET q == E.s.q[k]
      ag == E.s.ag[a]
  IN IF ag.ty = "R" /\ q.cls = "R" /\ when = 2
     THEN IF ag.has THEN SetA(E, a, [ag EXCEPT !.has = FALSE])
          ELSE IF q.c > 0
               THEN SetA(SetQ(E, k, SetResources(q, q.c - 1)), a, [ag EXCEPT !.has = TRUE])
               ELSE E
     ELSE IF ag.ty = "I" /\ q.cls = "I"
     THEN LET merged == TLCEval([j \in DOMAIN ag.net |->
                          IF ag.net[j].t < q.net[j].t THEN q.net[j] ELSE ag.net[j]])
          IN SetA(E, a, [ag EXCEPT !.net =
               [merged EXCEPT ![k] = [t |-> q.now, c |-> q.c, ld |-> Load(q.nsys, q.c)]]])
     ELSE E

Learn(E, k, a) ==            \* an information queue takes newer entries
  LET q == E.s.q[k]
      ag == E.s.ag[a]
  IN IF ag.ty = "I" /\ q.cls = "I"
     THEN SetQ(E, k, [q EXCEPT !.net = TLCEval([j \in DOMAIN q.net |->
            IF q.net[j].t < ag.net[j].t THEN ag.net[j] ELSE q.net[j]])])
     ELSE E

(***************************************************************************)
(* Building blocks                                                         *)
(***************************************************************************)
\* Agent a begins service at queue k at time t.
StartService(E, k, a, t) ==
  LET E1 == WriteRow(E, k, a, 2, t) IN
  { LET E2 == Emit(AgentActs(x.e, k, a, 1), "st", k, a)
    IN [E2 EXCEPT !.s.q[k].deps = @ \cup {[lo |-> x.v, hi |-> x.v, a |-> a]}]
    : x \in DrawSvc(E1, k, a, t) }

StartHead(E, k) ==
  LET a == Head(E.s.q[k].line)
  IN StartService([E EXCEPT !.s.q[k].line = Tail(@)], k, a, E.s.q[k].now)

\* Draw the next outside arrival if it is due.
Refill(E, k) ==
  LET q == E.s.q[k] IN
  IF q.oarr >= q.cap THEN {[E EXCEPT !.s.q[k].active = FALSE]}
  ELSE IF q.now < q.nct         \* not due: the drawn one is still to come, or is too late
  THEN {[E EXCEPT !.s.q[k].active = @ /\ q.nct < q.dt]}
  ELSE { LET t == x.v
             a == <<k, q.oarr>>
             E1 == [x.e EXCEPT !.s.q[k].nct = t]
         IN IF t >= q.dt THEN [E1 EXCEPT !.s.q[k].active = FALSE]
            ELSE Emit(SetA([E1 EXCEPT !.s.q[k].arrs = @ \cup {[t |-> t, a |-> a]},
                            !.s.q[k].oarr = @ + 1,
                            !.s.q[k].active = q.oarr + 1 < q.cap],
                      a, NewAgent(q.aty, Len(E.s.q))), "new", k, a)
         : x \in DrawArr(E, k, q.now) }

RefillIfActive(E, k) == IF E.s.q[k].active THEN Refill(E, k) ELSE {E}

\* The agent of arrival entry x is admitted.
Admit(E, k, x) ==
  LET E1 == [E EXCEPT !.s.q[k].arrs = @ \ {x}, !.s.q[k].now = x.t] IN
  UNION {
    LET E3 == [E2 EXCEPT !.s.q[k].nsys = @ + 1, !.s.q[k].narr = @ + 1]
        q  == E3.s.q[k]
        b  == IF q.nsys <= q.c THEN 0 ELSE 1
        E4 == IF q.coll
              THEN PutRow(E3, k, x.a, <<x.t, E.s.zero, E.s.zero, Len(q.line) + b, q.nsys>>)
              ELSE SetA(E3, x.a, [E3.s.ag[x.a] EXCEPT !.vis = <<0, 0>>])
        E5 == Emit(AgentActs(E4, k, x.a, 0), "av", k, x.a)
    IN IF q.nsys <= E5.s.q[k].c THEN StartService(E5, k, x.a, x.t)
       ELSE {[E5 EXCEPT !.s.q[k].line = Append(@, x.a)]}
    : E2 \in RefillIfActive(E1, k) }

\* ... or turned away.
TurnAway(E, k, x) ==
  LET E1 == Emit([E EXCEPT !.s.q[k].arrs = @ \ {x}, !.s.q[k].now = x.t,
                           !.s.q[k].nblk = @ + 1], "los", k, x.a)
  IN { LET q == E2.s.q[k]
           E3 == IF q.coll
                 THEN PutRow(E2, k, x.a, <<x.t, E.s.zero, E.s.zero, Len(q.line), q.nsys>>)
                 ELSE E2
       IN DelA(E3, x.a)
       : E2 \in RefillIfActive(E1, k) }

\* ... or hands in a resource.
Deposit(E, k, x) ==
  LET E1 == [E EXCEPT !.s.q[k] = [SetResources(@, @.c + 1) EXCEPT
                                    !.arrs = @ \ {x}, !.now = x.t]]
      q  == E1.s.q[k]
      E2 == IF q.coll THEN PutRow(E1, k, x.a, <<x.t, x.t, x.t, Len(q.line), q.nsys>>) ELSE E1
  IN {DelA(E2, x.a)}

Arrive(E, k, x) ==
  LET q == E.s.q[k]
      ag == E.s.ag[x.a]
  IN IF q.cls = "R" /\ ag.ty = "R" /\ ag.has THEN Deposit(E, k, x)
     ELSE LET E1 == Learn(E, k, x.a)
          IN IF Finite(q) /\ q.nsys >= q.c + q.buf THEN TurnAway(E1, k, x)
             ELSE Admit(E1, k, x)

\* The agent of departure entry x leaves queue k (it is not deleted here).
Depart(E, k, x) ==
  LET E1 == [E EXCEPT !.s.q[k].deps = @ \ {x}, !.s.q[k].now = x.hi,
                      !.s.q[k].ndep = @ + 1, !.s.q[k].nsys = @ - 1]
      E2 == WriteRow(E1, k, x.a, 3, x.hi)
      q  == E2.s.q[k]
      Es == IF Len(q.line) > 0 /\ InService(q) < q.c THEN StartHead(E2, k) ELSE {E2}
  IN {Emit(AgentActs(E3, k, x.a, 2), "dp", k, x.a) : E3 \in Es}

FirstArrs(q) == LET T == ArrT(q) IN {x \in q.arrs : x.t = T}
FirstDeps(q) == LET T == DepT(q) IN {x \in q.deps : x.lo = x.hi /\ x.hi = T}

(***************************************************************************)
(* Operations on a stand-alone queue (k = 1 of its instance)               *)
(***************************************************************************)
QNext(E, k) ==
  LET q == E.s.q[k] IN
  CASE NextKind(q) = 2 -> IF FirstDeps(q) = {} THEN {Bad(E, "internal-fuzzy")}
                          ELSE UNION {{DelA(e, x.a) : e \in Depart(E, k, x)} : x \in FirstDeps(q)}
    [] NextKind(q) = 1 -> UNION {Arrive(E, k, x) : x \in FirstArrs(q)}
    [] OTHER -> {E}

RECURSIVE QSimN(_, _, _)
QSimN(Es, k, n) == IF n = 0 THEN Es
                   ELSE QSimN(Good(UNION {QNext(E, k) : E \in Es}), k, n - 1)

Going(E, k, mode, lim) ==    \* does a simulate call with this limit go on?
  LET q == E.s.q[k] IN
  /\ E.bad = "" /\ NextT(q) < INF
  /\ CASE mode = "t"  -> q.now < lim
       [] mode = "nD" -> q.ndep < lim
       [] mode = "nA" -> q.oarr < lim
RECURSIVE QSimUntil(_, _, _, _)
QSimUntil(Es, k, mode, lim) ==
  LET run == {E \in Es : Going(E, k, mode, lim)} IN
  IF run = {} THEN Es
  ELSE QSimUntil(Good((Es \ run) \cup UNION {QNext(E, k) : E \in run}), k, mode, lim)

SetActive(E, k) ==
  IF E.s.q[k].active \/ E.s.q[k].cls = "N" THEN {E}
  ELSE Refill([E EXCEPT !.s.q[k].active = TRUE], k)
SetInactive(E, k) == {[E EXCEPT !.s.q[k].active = FALSE]}

RECURSIVE StartHeads(_, _, _)
StartHeads(Es, k, n) == IF n = 0 THEN Es
                        ELSE StartHeads(UNION {StartHead(E, k) : E \in Es}, k, n - 1)
SetServers(E, k, n) ==
  LET q == E.s.q[k] IN
  CASE q.cls = "N" -> {E}
    [] q.cls = "R" -> {SetQ(E, k, SetResources(q, n))}
    [] OTHER ->
         LET m == Max2(Min2(n - InService(q), Len(q.line)), 0)
         IN {[e EXCEPT !.s.q[k].c = n] : e \in StartHeads({E}, k, m)}

ReDep(E, k, x, y) == [E EXCEPT !.s.q[k].deps = (@ \ {x}) \cup {y}]
DelayTo(E, k, lo, hi) ==     \* the next departing agent is re-timed
  {ReDep(E, k, x, [lo |-> lo, hi |-> hi, a |-> x.a]) : x \in FirstDeps(E.s.q[k])}
DelayService(E, k) ==        \* ... or receives another service
  UNION {{ReDep(d.e, k, x, [lo |-> d.v, hi |-> d.v, a |-> x.a])
          : d \in DrawSvc(E, k, x.a, x.hi)} : x \in FirstDeps(E.s.q[k])}
Delay(E, k, t) ==
  IF E.s.q[k].deps = {} \/ E.s.q[k].cls = "N" THEN {E}
  ELSE IF t = NONE THEN DelayService(E, k) ELSE DelayTo(E, k, t, t)

ClearedQueue(q, zero) ==
  IF q.cls = "N" THEN [q EXCEPT !.data = <<>>, !.gen = @ + 1]
  ELSE [q EXCEPT !.now = zero, !.nct = zero, !.active = FALSE, !.oarr = 0, !.narr = 0,
                 !.ndep = 0, !.nsys = 0, !.nblk = 0, !.line = <<>>, !.arrs = {}, !.deps = {},
                 !.data = <<>>, !.gen = @ + 1, !.over = 0,
                 !.net = [j \in DOMAIN q.net |-> NoInfo]]
Clear(E) ==
  {[E EXCEPT !.s.q = TLCEval([k \in DOMAIN E.s.q |-> ClearedQueue(E.s.q[k], E.s.zero)]),
             !.s.ag = << >>, !.s.t = E.s.zero, !.s.nev = 0, !.s.inited = FALSE]}

(***************************************************************************)
(* Networks                                                                *)
(***************************************************************************)
NetTotal(s) == SumSeq([k \in 1..Len(s.q) |-> Total(s.q[k])])
NetNextT(s) == IF ~s.inited THEN INF ELSE MinOf({NextT(s.q[k]) : k \in DOMAIN s.q})

\* Before an event at queue k: a full network makes it inactive.
Gate(E, k) == IF E.s.q[k].active /\ E.s.maxa < INF /\ NetTotal(E.s) >= E.s.maxa
              THEN [E EXCEPT !.s.q[k].active = FALSE] ELSE E

Returning(s, k, a) == s.q[k].cls = "R" /\ s.ag[a].ty = "R" /\ s.ag[a].has

\* Agent of entry x departs from k1 and moves to k2.
Transfer(E, k1, x, k2) ==
  UNION {
    LET q2 == E1.s.q[k2]
        t  == x.hi
    IN IF q2.cls = "N"
       THEN {DelA(IF q2.coll
                  THEN PutRow(E1, k2, x.a, <<t, E.s.zero, E.s.zero, 0, 0>>) ELSE E1, x.a)}
       ELSE LET y  == [t |-> t, a |-> x.a]
                E2 == Gate([E1 EXCEPT !.s.q[k2].arrs = @ \cup {y}], k2)
            IN Arrive(E2, k2, y)
    : E1 \in Depart(E, k1, x) }

\* Agent of entry x finds k2 full.
Blocked(E, k1, x, k2) ==
  LET E1 == [E EXCEPT !.s.q[k2].nblk = @ + 1, !.s.ag[x.a].blk = @ + 1] IN
  IF E.s.bas
  THEN LET T == DepT(E.s.q[k2])
           fz == \E d \in E.s.q[k2].deps : d.lo < d.hi /\ d.lo + 1 = T
           r == IF T >= INF THEN [lo |-> INF, hi |-> INF]
                ELSE IF fz
                THEN LET d == CHOOSE d \in E.s.q[k2].deps : d.lo < d.hi /\ d.lo + 1 = T
                     IN [lo |-> d.lo, hi |-> Retime(d.hi).hi]
                ELSE Retime(T)
       IN {ReDep(E1, k1, x, [lo |-> r.lo, hi |-> r.hi, a |-> x.a])}
  ELSE {ReDep(d.e, k1, x, [lo |-> d.v, hi |-> d.v, a |-> x.a])
        : d \in DrawSvc(E1, k1, x.a, x.hi)}

DepartureEvent(E, k, x) ==
  UNION { IF d.v \notin DOMAIN E.s.q THEN {Bad(d.e, "dest-not-an-edge")}
          ELSE IF AtCapacity(d.e.s.q[d.v]) /\ d.v # k /\ ~Returning(d.e.s, d.v, x.a)
          THEN Blocked(d.e, k, x, d.v)
          ELSE Transfer(d.e, k, x, d.v)
          : d \in DrawDest(E, k, x.a) }

NetNext(E) ==
  LET T == NetNextT(E.s) IN
  IF T >= INF THEN {[E EXCEPT !.s.t = INF]}
  ELSE UNION {
    LET q  == E.s.q[k]
        E1 == [E EXCEPT !.s.t = T, !.s.nev = @ + 1]
    IN IF NextKind(q) = 2
       THEN IF FirstDeps(q) = {} THEN {Bad(E, "internal-fuzzy")}
            ELSE UNION {DepartureEvent(E1, k, x) : x \in FirstDeps(q)}
       ELSE UNION {Arrive(Gate(E1, k), k, x) : x \in FirstArrs(q)}
    : k \in {j \in DOMAIN E.s.q : NextT(E.s.q[j]) = T} }

RECURSIVE NSimN(_, _)
NSimN(Es, n) == IF n = 0 THEN Es ELSE NSimN(Good(UNION {NetNext(E) : E \in Es}), n - 1)
RECURSIVE NSimT(_, _)
NSimT(Es, lim) ==
  LET run == {E \in Es : E.bad = "" /\ E.s.t < lim} IN
  IF run = {} THEN Es ELSE NSimT(Good((Es \ run) \cup UNION {NetNext(E) : E \in run}), lim)

\* Activate the queues of the sequence order, as far as there is room.
RECURSIVE ActivateAll(_, _, _)
ActivateAll(Es, order, i) ==
  IF i > Len(order) THEN Es
  ELSE ActivateAll(UNION {
         IF NetTotal(E.s) >= E.s.maxa THEN {E}
         ELSE LET k == order[i]
                  q == E.s.q[k]
                  E1 == IF ~q.active
                        THEN [E EXCEPT !.s.q[k].now = Max2(@, E.s.t)] ELSE E
              IN SetActive(E1, k)
         : E \in Es}, order, i + 1)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* A network that ran out of events goes on from the time of the last one.
Restart(E) == IF E.s.t < INF THEN E
              ELSE [E EXCEPT !.s.t = MaxOf({E.s.q[k].now : k \in DOMAIN E.s.q})]
NetInit(E, order) == {[e EXCEPT !.s.inited = TRUE] : e \in ActivateAll({Restart(E)}, order, 1)}

\* Routing from vertex v is changed: positive exactly on the edges of on.
Route(E, v, on) == {[E EXCEPT !.s.pos = TLCEval([k \in DOMAIN @ |->
                      IF E.s.e[k][1] = v THEN k \in on ELSE @[k]])]}

SetColl(E, ks, b) == {[E EXCEPT !.s.q =
   TLCEval([k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.coll = b] ELSE @[k]])]}
ClearData(E, ks) == {[E EXCEPT !.s.q =
   TLCEval([k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.data = <<>>, !.gen = @ + 1] ELSE @[k]])]}

(***************************************************************************)
(* Properties of a single state (checked by the model-checking modules in  *)
(* every reachable state, and by trace validation after every step).       *)
(***************************************************************************)
\* C01  no server idles while an agent waits; services never exceed servers
Serving(q) ==
  q.cls # "N" =>
    /\ Cardinality(q.deps) = InService(q)
    /\ (q.line # <<>> => InService(q) >= q.c)
\* C03
Counters(q) == q.narr = q.ndep + q.nsys /\ q.nsys = Len(q.line) + Cardinality(q.deps)
\* C02  nothing is scheduled in the past
NoPast(q) == (q.arrs # {} => ArrT(q) >= q.now) /\ (q.deps # {} => DepT(q) >= q.now)
\* C05
Outside(q, k) ==
  LET mine == {x \in q.arrs : x.a[1] = k} IN
  /\ q.oarr <= Max2(q.cap, 0)
  /\ Cardinality({x \in mine : x.t > q.now}) <= 1
  /\ q.active => mine # {}
  /\ \A x \in mine : x.t < q.dt
  /\ (q.active => q.oarr < q.cap)
\* C07
RowOK(zero, r) == (r[2] = zero \/ r[2] >= r[1]) /\ (r[3] = zero \/ r[3] >= r[2])
Rows(q, zero) == \A i \in DOMAIN q.data : RowOK(zero, q.data[i].r)
\* C09  an agent is in exactly one place
Places(s, a) ==
  SumSeq([k \in 1..Len(s.q) |->
    Cardinality({x \in s.q[k].arrs : x.a = a}) + Cardinality({x \in s.q[k].deps : x.a = a})
    + Cardinality({i \in DOMAIN s.q[k].line : s.q[k].line[i] = a})])
Conserved(s) == \A a \in DOMAIN s.ag : Places(s, a) = 1
AllKnown(s) == \A k \in DOMAIN s.q :
   /\ \A x \in s.q[k].arrs \cup s.q[k].deps : x.a \in DOMAIN s.ag
   /\ \A i \in DOMAIN s.q[k].line : s.q[k].line[i] \in DOMAIN s.ag
\* C19
Held(s) == Cardinality({a \in DOMAIN s.ag : s.ag[a].has})
Resources(s) == Held(s) + SumSeq([k \in 1..Len(s.q) |-> IF s.q[k].cls = "R" THEN s.q[k].c ELSE 0])
=============================================================================
