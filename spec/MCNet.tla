------------------------------- MODULE MCNet -------------------------------
(***************************************************************************)
(* QueueNet, explored exhaustively: every schedule of public calls from a  *)
(* menu, every value the environment can return, up to a number of calls,  *)
(* for the scenarios (stand-alone queues and networks) below.              *)
(*                                                                         *)
(* What the library promises is stated a second time here, independently   *)
(* of how QueueNet computes it: for every step, from the state before, the *)
(* call, what callbacks observed (E.h, in order) and the state after, the  *)
(* operators C01..C20 say whether the promise was kept.  C07 and C20 use   *)
(* ghost variables (the true story of every visit; every past state).      *)
(*                                                                         *)
(* Times are ticks; one time unit is TICK ticks, and "immediately after"   *)
(* (blocking after service) is one tick.                                   *)
(***************************************************************************)
EXTENDS QueueNet, Json

CONSTANTS SCEN,       \* names of scenarios
          PROPS,      \* properties to judge
          DEPTH,      \* number of calls after the first
          Emitting,   \* print complete behaviours, for replay on the code
          Random      \* ... of a random walk (TLC -simulate)
VARIABLES sc, s, n, viol, truth, vis, past, hist
vars == <<sc, s, n, viol, truth, vis, past, hist>>

TICK == 10

(***************************************************************************)
(* Scenarios                                                               *)
(***************************************************************************)
Qu(cls, c, buf, cap, dt, aty, edge) ==
  [cls |-> cls, c |-> c, buf |-> buf, cap |-> cap, dt |-> IF dt = INF THEN INF ELSE dt * TICK,
   aty |-> aty, coll |-> FALSE, edge |-> edge]
Coll(q) == [q EXCEPT !.coll = TRUE]
One(q) == [kind |-> "queue", zero |-> 0, maxa |-> INF, bas |-> TRUE, qs |-> <<q>>]
Net(qs, maxa, bas) == [kind |-> "net", zero |-> 0, maxa |-> maxa, bas |-> bas, qs |-> qs]
E0 == <<0, 0, 1>>

op(o)       == [o |-> o, k |-> 1, n |-> 0, mode |-> "n", b |-> FALSE, ks |-> {}]
opn(o, n_)  == [op(o) EXCEPT !.n = n_]
sim(m, n_)  == [op("sim") EXCEPT !.mode = m, !.n = n_]
nsim(m, n_) == [op("nsim") EXCEPT !.mode = m, !.n = n_]
onq(o, ks, b) == [op(o) EXCEPT !.ks = ks, !.b = b]
srv(k, n_)  == [opn("srv", n_) EXCEPT !.k = k]
next == op("next")

QS == [cfg |-> One(Qu("Q", 1, INF, INF, INF, "A", E0)), menu |-> {next}, ag |-> {1, 2}, sg |-> {1, 2},
       boot |-> op("act"), few |-> 2]
Few(S, r, k) == [r EXCEPT !.menu = S \cup {next}, !.few = k]   \* at most k calls other than next/nsim 1
step1 == nsim("n", 1)
FewN(S, r, k) == [r EXCEPT !.menu = S \cup {step1}, !.few = k]
NS(cfg, first) == [cfg |-> cfg, menu |-> {step1}, ag |-> {1, 2}, sg |-> {1, 2},
                   boot |-> onq("init", first, FALSE), few |-> 2]

Scenario(name) ==
  CASE name = "q1" -> QS
    [] name = "q2" -> [QS EXCEPT !.cfg = One(Qu("Q", 2, INF, INF, INF, "A", E0)), !.ag = {0, 1}, !.sg = {1, 2, 3}]
    [] name = "qsrv" -> Few({opn("srv", 1), opn("srv", 2), opn("srv", 3)}, [QS EXCEPT !.ag = {1}, !.sg = {2, 4}], 3)
    [] name = "qinf" -> Few({opn("srv", 1), opn("srv", INF)}, [QS EXCEPT !.ag = {1}, !.sg = {1, 3}], 3)
    [] name = "qdelay" -> Few({opn("delay", NONE), opn("delay", 1), opn("delay", 3)},
                              [QS EXCEPT !.cfg = One(Qu("L", 2, 1, INF, INF, "A", E0)), !.ag = {1, 2}], 3)
    [] name = "qties" -> [QS EXCEPT !.cfg = One(Qu("L", 1, 1, INF, INF, "A", E0)), !.ag = {0, 1}, !.sg = {0, 1, 2}]
    [] name = "loss0" -> [QS EXCEPT !.cfg = One(Qu("L", 1, 0, INF, INF, "A", E0)), !.sg = {1, 3}]
    [] name = "loss1" -> Few({opn("srv", 1), opn("srv", 2)},
                             [QS EXCEPT !.cfg = One(Qu("L", 2, 1, INF, INF, "A", E0)), !.ag = {1}, !.sg = {2, 3}], 3)
    [] name = "lossinfo" -> [QS EXCEPT !.cfg = One(Qu("I", 1, 1, INF, INF, "A", E0)), !.sg = {1, 3}]
    [] name = "active" -> Few({op("act"), op("inact"), op("clear")},
                              [QS EXCEPT !.cfg = One(Qu("L", 1, 1, 3, INF, "A", E0)), !.sg = {1}], 5)
    [] name = "stopping" -> Few({op("act"), op("inact")},
                                [QS EXCEPT !.cfg = One(Qu("Q", 1, INF, 5, 4, "A", E0)), !.sg = {1}], 4)
    [] name = "cap0" -> Few({op("act"), op("inact")},
                            [QS EXCEPT !.cfg = One(Qu("Q", 1, INF, 0, INF, "A", E0)), !.sg = {1}], 4)
    [] name = "stop" -> Few({sim("n", 2), sim("t", 2), sim("t", 0), sim("nD", 2), sim("nA", 2), sim("nD", 0), op("inact")},
                            [QS EXCEPT !.cfg = One(Qu("L", 1, 1, 4, INF, "A", E0)), !.sg = {1, 3}], 3)
    [] name = "rows" -> Few({onq("coll", {1}, TRUE), onq("coll", {1}, FALSE), op("clear"), op("act")},
                            [QS EXCEPT !.cfg = One(Coll(Qu("L", 1, 1, INF, INF, "A", E0))), !.ag = {1}, !.sg = {1, 2}], 3)
    [] name = "rows2" -> Few({onq("coll", {1}, TRUE), onq("coll", {1}, FALSE)},
                             [QS EXCEPT !.cfg = One(Coll(Qu("Q", 2, INF, INF, INF, "A", E0))), !.ag = {1}, !.sg = {1, 3}], 3)
    [] name = "clear" -> Few({op("clear"), op("act"), opn("srv", 2)},
                             [QS EXCEPT !.cfg = One(Coll(Qu("L", 1, 1, 3, INF, "A", E0))), !.ag = {1}, !.sg = {1, 2}], 4)
    [] name = "res" -> Few({opn("srv", 1), opn("srv", 3)},
                           [QS EXCEPT !.cfg = One(Qu("R", 2, 1, INF, INF, "R", E0)), !.ag = {1}, !.sg = {1, 2}], 3)
    [] name = "info" -> [QS EXCEPT !.cfg = One(Qu("I", 1, 1, INF, INF, "I", E0))]
    \* networks -----------------------------------------------------------
    \* a line of two queues and an exit
    [] name = "line" -> NS(Net(<<Qu("Q", 1, INF, INF, INF, "A", <<0, 1, 1>>), Qu("Q", 1, INF, INF, INF, "A", <<1, 2, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<2, 3, 0>>)>>, INF, TRUE), {1})
    \* two queues feeding each other, with loops
    [] name = "ring" -> NS(Net(<<Qu("Q", 1, INF, 2, INF, "A", <<0, 0, 1>>), Qu("Q", 1, INF, 2, INF, "A", <<0, 1, 1>>),
                                 Qu("Q", 1, INF, INF, INF, "A", <<1, 0, 1>>)>>, INF, TRUE), {1, 2})
    [] name = "bas" -> [NS(Net(<<Qu("Q", 1, INF, 3, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, INF, INF, "A", <<1, 2, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<2, 3, 0>>)>>, INF, TRUE), {1}) EXCEPT !.sg = {1, 3}]
    [] name = "bas2" -> NS(Net(<<Qu("L", 1, 1, 2, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, INF, INF, "A", <<1, 0, 1>>),
                                 Qu("L", 2, 0, 2, INF, "A", <<1, 1, 1>>)>>, INF, TRUE), {1, 3})
    [] name = "rs" -> [NS(Net(<<Qu("Q", 1, INF, 3, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, 2, INF, "A", <<1, 2, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<2, 3, 0>>)>>, INF, FALSE), {1, 2}) EXCEPT !.sg = {1, 3}]
    [] name = "rs2" -> NS(Net(<<Qu("L", 1, 1, 2, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, 2, INF, "A", <<1, 0, 1>>),
                                 Qu("L", 1, 0, 2, INF, "A", <<1, 1, 1>>)>>, INF, FALSE), {1, 3})
    [] name = "greedy" -> [NS(Net(<<Qu("Q", 2, INF, 5, INF, "G", <<0, 1, 1>>), Qu("Q", 1, INF, INF, INF, "G", <<1, 0, 1>>),
                                 Qu("L", 1, 1, INF, INF, "G", <<1, 1, 1>>)>>, INF, TRUE), {1}) EXCEPT !.ag = {1}, !.sg = {1, 4}]
    [] name = "greedy2" -> [NS(Net(<<Qu("Q", 1, INF, 4, INF, "G", <<0, 1, 1>>), Qu("L", 1, 2, 2, INF, "G", <<1, 0, 1>>),
                                 Qu("Q", 1, INF, INF, INF, "G", <<1, 2, 1>>), Qu("N", 1, 0, INF, INF, "A", <<2, 3, 0>>)>>,
                                 INF, FALSE), {1, 2}) EXCEPT !.ag = {1}, !.sg = {1, 4}]
    [] name = "default" -> FewN({[opn("route", 1) EXCEPT !.ks = {2}], [opn("route", 1) EXCEPT !.ks = {2, 3}],
                                 [opn("route", 0) EXCEPT !.ks = {1}]},
                            NS(Net(<<Qu("Q", 1, INF, 3, INF, "D", <<0, 1, 1>>), Qu("Q", 1, INF, INF, INF, "D", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, INF, TRUE), {1}), 3)
    [] name = "maxa" -> FewN({onq("init", {1, 2}, FALSE), onq("init", {2}, FALSE)},
                            NS(Net(<<Qu("Q", 1, INF, INF, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, INF, INF, "A", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, 3, TRUE), {1, 2}), 2)
    [] name = "maxrs" -> FewN({onq("init", {1}, FALSE)},
                            NS(Net(<<Qu("L", 1, 0, INF, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, INF, INF, "A", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, 2, FALSE), {1, 2}), 2)
    [] name = "init" -> FewN({onq("init", {2}, FALSE), onq("init", {1, 2, 3}, FALSE), opn("initn", 1), opn("initn", 2), op("clear")},
                            NS(Net(<<Qu("Q", 1, INF, 1, INF, "A", <<0, 1, 1>>), Qu("L", 1, 0, 2, 3, "A", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, INF, TRUE), {1}), 3)
    [] name = "nstop" -> FewN({nsim("n", 3), nsim("t", 2), nsim("t", 0), nsim("n", 0)},
                            NS(Net(<<Qu("Q", 1, INF, 2, INF, "A", <<0, 1, 1>>), Qu("Q", 1, INF, 1, INF, "A", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, INF, TRUE), {1, 2}), 3)
    [] name = "select" -> FewN({onq("coll", {1}, TRUE), onq("coll", {1, 2}, FALSE), onq("cleardata", {2}, TRUE),
                                onq("coll", {2, 3}, TRUE)},
                            NS(Net(<<Qu("Q", 1, INF, 2, INF, "A", <<0, 1, 1>>), Coll(Qu("L", 1, 0, INF, INF, "A", <<1, 0, 2>>)),
                                 Coll(Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>))>>, INF, FALSE), {1}), 3)
    [] name = "nclear" -> FewN({op("clear"), onq("init", {1}, FALSE)},
                            NS(Net(<<Coll(Qu("Q", 1, INF, 2, INF, "A", <<0, 1, 1>>)), Qu("L", 1, 0, INF, INF, "A", <<1, 0, 2>>),
                                 Coll(Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>))>>, INF, FALSE), {1}), 3)
    [] name = "nres" -> NS(Net(<<Qu("R", 2, 1, 4, INF, "R", <<0, 1, 1>>), Qu("R", 1, 1, INF, INF, "R", <<1, 0, 1>>),
                                 Qu("N", 1, 0, INF, INF, "A", <<1, 2, 0>>)>>, INF, FALSE), {1})
    [] name = "nres2" -> NS(Net(<<Qu("R", 1, 0, 4, INF, "R", <<0, 0, 1>>), Qu("Q", 1, INF, INF, INF, "R", <<0, 1, 2>>),
                                 Qu("R", 1, 2, INF, INF, "R", <<1, 0, 1>>)>>, INF, TRUE), {1})
    [] name = "ninfo" -> NS(Net(<<Qu("I", 1, INF, 3, INF, "I", <<0, 1, 1>>), Qu("I", 1, 0, INF, INF, "I", <<1, 0, 1>>),
                                 Qu("Q", 1, INF, INF, INF, "A", <<1, 1, 2>>)>>, INF, FALSE), {1})
    [] name = "ninfo2" -> FewN({op("clear"), onq("init", {1, 2}, FALSE)},
                           NS(Net(<<Qu("I", 1, INF, 2, INF, "I", <<0, 1, 1>>), Qu("I", 2, 0, 2, INF, "I", <<1, 0, 1>>)>>,
                              INF, FALSE), {1, 2}), 2)

(***************************************************************************)
(* The environment                                                         *)
(***************************************************************************)
Ev(x, k, a, t, v) == [x |-> x, k |-> k, a |-> a, t |-> t, v |-> v, ns |-> 0, c |-> 0]
Note(E, e) == [E EXCEPT !.h = Append(@, e)]
Gaps(E, which) == IF which = "ag" THEN Scenario(sc).ag ELSE Scenario(sc).sg
MDrawArr(E, k, now) == {[e |-> Note(E, Ev("arr", k, <<k, E.s.q[k].oarr>>, now, now + g * TICK)), v |-> now + g * TICK]
                        : g \in Gaps(E, "ag")}
MDrawSvc(E, k, a, now) == {[e |-> Note(E, Ev("svc", k, a, now, now + g * TICK)), v |-> now + g * TICK]
                           : g \in Gaps(E, "sg")}
MDests(s_, k, a) == CASE s_.ag[a].ty = "G" -> {GreedyChoice(s_, k)}
                      [] s_.ag[a].ty = "D" -> Reachable(s_, k)
                      [] OTHER -> OutEdges(s_, s_.e[k][2])
MDrawDest(E, k, a) == {[e |-> Note(E, Ev("dst", k, a, E.s.t, d)), v |-> d] : d \in MDests(E.s, k, a)}
MEmit(E, kind, k, a) == Note(E, [Ev(kind, k, a, E.s.q[k].now, 0) EXCEPT !.ns = E.s.q[k].nsys, !.c = E.s.q[k].c])
MRetime(T) == [lo |-> T + 1, hi |-> T + 1]

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
NonTerm(s_) == {k \in DOMAIN s_.q : s_.q[k].cls # "N"}
Perms(S) == {sq \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN sq : i # j => sq[i] # sq[j]}
Do(E, o) ==
  CASE o.o = "act"   -> SetActive(E, o.k)
    [] o.o = "inact" -> SetInactive(E, o.k)
    [] o.o = "srv"   -> SetServers(E, o.k, o.n)
    [] o.o = "next"  -> QNext(E, o.k)
    [] o.o = "delay" -> Delay(E, o.k, IF o.n = NONE THEN NONE ELSE E.s.q[o.k].now + o.n * TICK)
    [] o.o = "clear" -> Clear(E)
    [] o.o = "coll"  -> SetColl(E, o.ks, o.b)
    [] o.o = "cleardata" -> ClearData(E, o.ks)
    [] o.o = "sim"   -> IF o.mode = "n" THEN QSimN({E}, o.k, o.n)
                        ELSE IF o.mode = "t" THEN QSimUntil({E}, o.k, "t", E.s.q[o.k].now + o.n * TICK)
                        ELSE IF o.mode = "nD" THEN QSimUntil({E}, o.k, "nD", E.s.q[o.k].ndep + o.n)
                        ELSE QSimUntil({E}, o.k, "nA", E.s.q[o.k].oarr + o.n)
    [] o.o = "nsim"  -> IF o.mode = "n" THEN NSimN({E}, o.n)
                        ELSE IF E.s.t >= INF THEN {E} ELSE NSimT({E}, E.s.t + o.n * TICK)
    [] o.o = "init"  -> UNION {NetInit(E, u) : u \in Perms(o.ks \cap NonTerm(E.s))}
    [] o.o = "initn" -> UNION {UNION {NetInit(E, u) : u \in Perms(S)}
                               : S \in {S \in SUBSET NonTerm(E.s) : Cardinality(S) = Min2(o.n, Cardinality(NonTerm(E.s)))}}
    [] o.o = "route" -> Route(E, o.n, o.ks)
\* calls that cannot be made now: delays only make sense forward, an
\* uninitialized network is not simulated
Possible(s_, o) ==
  /\ o.o = "nsim" => s_.inited
  /\ o.o = "delay" => s_.q[o.k].deps # {} /\ (o.n # NONE => s_.q[o.k].now + o.n * TICK >= s_.q[o.k].now)
  /\ o.o = "next" => NextT(s_.q[o.k]) < INF
  /\ o.o = "act" => ~s_.q[o.k].active
  /\ o.o = "inact" => s_.q[o.k].active
  /\ o.o = "srv" => s_.q[o.k].c # o.n
  /\ o.o = "coll" => \E k \in o.ks : s_.q[k].coll # o.b

(***************************************************************************)
(* The promises, step by step.  a == state before, o == the call, b ==     *)
(* state after, ev == what was observed during the call, in order.         *)
(***************************************************************************)
Evs(ev, x, k) == SelectSeq(ev, LAMBDA y : y.x = x /\ y.k = k)
Agents(es) == [i \in DOMAIN es |-> es[i].a]
Num(ev, x, k) == Len(Evs(ev, x, k))
Has(ev, x, k, ag) == \E i \in DOMAIN ev : ev[i].x = x /\ ev[i].k = k /\ ev[i].a = ag
IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Single(o) == o.o \in {"next"} \/ (o.o = "nsim" /\ o.mode = "n" /\ o.n = 1)
             \/ (o.o = "sim" /\ o.mode = "n" /\ o.n = 1)
Same(a, b, k) == a.q[k] = b.q[k]
Dispatches(q) == q.cls \in {"Q", "L", "I"}
InSet(sq, x) == \E i \in DOMAIN sq : sq[i] = x

\* C01
C01(a, o, b, ev) ==
  o.o = "clear" \/
  \A k \in DOMAIN a.q :
    LET joined == a.q[k].line \o Agents(Evs(ev, "av", k))
        started == Agents(Evs(ev, "st", k))
    IN /\ Dispatches(b.q[k]) => /\ IsPrefix2(started, joined)
                                /\ b.q[k].line = SubSeq(joined, Len(started) + 1, Len(joined))
                                /\ Serving(b.q[k])
                                /\ InService(b.q[k]) > b.q[k].c => InService(b.q[k]) <= InService(a.q[k])
       \* at a resource queue: the line is served in order, too
       /\ b.q[k].cls = "R" =>
            LET fromline == SelectSeq(started, LAMBDA x : InSet(a.q[k].line, x))
            IN IsPrefix2(fromline, a.q[k].line)
       \* admitted while there is a free server <=> starts at once
       /\ Single(o) => \A i \in DOMAIN ev : ev[i].x = "av" /\ ev[i].k = k =>
            ((ev[i].ns <= ev[i].c) => InSet(started, ev[i].a))
       \* a departure frees one server: the head, and only the head, starts
       /\ Single(o) /\ Num(ev, "dp", k) = 1 /\ a.q[k].line # <<>> /\ InService(a.q[k]) - 1 < a.q[k].c
            => started # <<>> /\ started[1] = Head(a.q[k].line)
       \* raising the number of servers starts exactly as many as there are free servers
       /\ o.o = "srv" /\ o.k = k /\ Dispatches(a.q[k])
            => Len(started) = Max2(0, Min2(o.n - InService(a.q[k]), Len(a.q[k].line)))

\* C02
C02(a, o, b, ev) ==
  \A k \in DOMAIN a.q :
    /\ NoPast(b.q[k])
    /\ o.o \notin {"clear"} => b.q[k].now >= a.q[k].now
    /\ o.o = "next" /\ NextKind(a.q[k]) # 0 => b.q[k].now = NextT(a.q[k])
    /\ o.o = "next" /\ NextKind(a.q[k]) = 1 => (Num(ev, "av", k) + Num(ev, "los", k) = 1 /\ Num(ev, "dp", k) = 0)
                                                \/ a.q[k].cls = "R"
    /\ o.o = "next" /\ NextKind(a.q[k]) = 2 => Num(ev, "dp", k) = 1 /\ Num(ev, "av", k) = 0
    /\ o.o = "next" /\ ArrT(a.q[k]) <= DepT(a.q[k]) => Num(ev, "dp", k) = 0
    /\ (o.o = "nsim" /\ Single(o)) => \A i \in DOMAIN ev : ev[i].x = "dst" /\ ev[i].k = k
          => DepT(a.q[k]) < ArrT(a.q[k])
    \* functions receive the present; what they return is when it happens
    /\ Single(o) =>
         /\ \A i \in DOMAIN ev : ev[i].x = "arr" /\ ev[i].k = k =>
              /\ ev[i].t = b.q[k].now
              /\ ev[i].v < a.q[k].dt => \E y \in b.q[k].arrs : y.a = ev[i].a /\ y.t = ev[i].v
         /\ \A i \in DOMAIN ev : ev[i].x = "svc" /\ ev[i].k = k =>
              /\ (ev[i].t = b.q[k].now \/ a.kind = "net")
              /\ \E y \in b.q[k].deps : y.a = ev[i].a /\ y.hi = ev[i].v
    /\ o.o = "delay" => LET x == FirstDeps(a.q[k]) IN
         \A y \in a.q[k].deps : y \in b.q[k].deps \/
            (y \in x /\ \E z \in b.q[k].deps : z.a = y.a /\
                (IF o.n # NONE THEN z.hi = a.q[k].now + o.n * TICK
                 ELSE Has(ev, "svc", k, y.a) /\ \E i \in DOMAIN ev : ev[i].x = "svc" /\ ev[i].t = y.hi /\ z.hi = ev[i].v))

\* C03
BlockedHere(a, b, ev, k) ==    \* agents that were sent to k and found it full
  Cardinality({i \in DOMAIN ev : ev[i].x = "dst" /\ ev[i].v = k /\ ~Has(ev, "dp", ev[i].k, ev[i].a)})
C03(a, o, b, ev) ==
  \A k \in DOMAIN a.q :
    /\ b.q[k].cls # "N" => Counters(b.q[k])
    /\ o.o # "clear" =>
         /\ b.q[k].narr - a.q[k].narr = Num(ev, "av", k)
         /\ b.q[k].ndep - a.q[k].ndep = Num(ev, "dp", k)
         /\ b.q[k].nsys - a.q[k].nsys = Num(ev, "av", k) - Num(ev, "dp", k)
         /\ b.q[k].oarr - a.q[k].oarr = Num(ev, "new", k)
         /\ Single(o) => b.q[k].nblk - a.q[k].nblk = Num(ev, "los", k) + BlockedHere(a, b, ev, k)
         /\ Single(o) => Cardinality({x \in {"av", "dp"} : Num(ev, x, k) > 1}) = 0

\* C04
C04(a, o, b, ev) ==
  \A k \in DOMAIN a.q :
    /\ ~Finite(a.q[k]) => Num(ev, "los", k) = 0 /\ ~AtCapacity(a.q[k])
    /\ (o.o = "next" /\ NextKind(a.q[k]) = 1 /\ Finite(a.q[k])) =>
         LET full == a.q[k].nsys >= a.q[k].c + a.q[k].buf IN
         IF full /\ a.q[k].cls # "R"
         THEN /\ Num(ev, "los", k) = 1 /\ Num(ev, "av", k) = 0 /\ Num(ev, "st", k) = 0
              /\ b.q[k].nblk = a.q[k].nblk + 1 /\ b.q[k].line = a.q[k].line /\ b.q[k].deps = a.q[k].deps
              /\ \A i \in DOMAIN ev : ev[i].x = "los" => ev[i].a \notin DOMAIN b.ag
         ELSE ~full => (Num(ev, "los", k) = 0 /\ (Num(ev, "av", k) = 1 \/ a.q[k].cls = "R"))
    \* nobody is admitted beyond capacity
    /\ (Finite(b.q[k]) /\ b.q[k].nsys > a.q[k].nsys /\ Single(o)) => b.q[k].nsys <= a.q[k].c + a.q[k].buf

\* C05
C05(a, o, b, ev) ==
  \A k \in DOMAIN a.q :
    /\ Outside(b.q[k], k)
    /\ \A i \in DOMAIN ev : ev[i].x = "new" /\ ev[i].k = k => ev[i].a[1] = k /\ ev[i].a[2] < a.q[k].cap
    /\ Num(ev, "new", k) = Num(ev, "new", k)
    /\ Single(o) => (Num(ev, "arr", k) > 0 => a.q[k].active) /\ Num(ev, "arr", k) <= 1
    /\ o.o = "inact" => ~b.q[k].active /\ ev = <<>>
    /\ o.o = "act" /\ a.q[k].active => b = a
    /\ b.q[k].oarr = a.q[k].oarr + Num(ev, "new", k) \/ o.o = "clear"
    \* an active queue whose own agent arrived draws the next one
    /\ Single(o) /\ a.q[k].active /\ b.q[k].active =>
         ((\E y \in a.q[k].arrs : y.a[1] = k /\ y.t > a.q[k].now /\ y \notin b.q[k].arrs) => Num(ev, "arr", k) = 1)

\* C06
C06(a, o, b, ev) ==
  LET q == b.q[o.k] IN
  CASE o.o = "sim" /\ o.mode = "t" -> q.now >= a.q[o.k].now + o.n * TICK \/ NextT(q) >= INF
    [] o.o = "sim" /\ o.mode = "nD" -> LET want == a.q[o.k].ndep + o.n IN
                                       q.ndep = want \/ (q.ndep < want /\ NextT(q) >= INF)
    [] o.o = "sim" /\ o.mode = "nA" -> LET want == a.q[o.k].oarr + o.n IN
                                       q.oarr = want \/ (q.oarr < want /\ NextT(q) >= INF)
    [] o.o = "sim" /\ o.mode = "n" ->
         LET e == Len(SelectSeq(ev, LAMBDA y : y.x \in {"av", "los", "dp"})) IN
         (e = o.n \/ (e < o.n /\ NextT(q) >= INF)) \/ q.cls = "R"
    [] o.o = "nsim" /\ o.mode = "t" -> b.t >= (IF a.t < INF THEN a.t + o.n * TICK ELSE INF)
    [] o.o = "nsim" /\ o.mode = "n" -> b.nev = a.nev + o.n \/ (b.nev < a.nev + o.n /\ b.t = INF /\ NetNextT(b) >= INF)
    [] OTHER -> TRUE

\* C07  the ghost: truth[k] rows, vis[a] = <<queue, row>> or <<0, 0>>
None == <<0, 0>>
VisOf(v, a) == IF a \in DOMAIN v THEN v[a] ELSE None
SetVis(v, a, x) == [y \in DOMAIN v \cup {a} |-> IF y = a THEN x ELSE v[y]]
RECURSIVE Tell(_, _, _, _, _, _)
Tell(a, o, b, ev, i, g) ==      \* g = [tr, vi]
  IF i > Len(ev) THEN g
  ELSE LET e == ev[i]
           k == e.k
           on == a.q[k].coll
           left == Cardinality({j \in 1..i : ev[j].x = "dp" /\ ev[j].k = k})
           begun == Cardinality({j \in 1..i : ev[j].x = "st" /\ ev[j].k = k})
           waiting == Len(a.q[k].line) - begun
           present == a.q[k].nsys - left
           atonce == Has(ev, "st", k, e.a)
           g1 == CASE e.x = "av" /\ on ->
                        [tr |-> [g.tr EXCEPT ![k] = Append(@, [a |-> e.a, r |->
                                 <<e.t, 0, 0, waiting + (IF atonce THEN 0 ELSE 1), present + 1>>])],
                         vi |-> SetVis(g.vi, e.a, <<k, Len(g.tr[k]) + 1>>)]
                   [] e.x = "av" /\ ~on -> [g EXCEPT !.vi = SetVis(@, e.a, None)]
                   [] e.x = "los" /\ on ->
                        [g EXCEPT !.tr[k] = Append(@, [a |-> e.a, r |-> <<e.t, 0, 0, waiting, present>>])]
                   [] e.x = "st" /\ on /\ VisOf(g.vi, e.a) # None ->
                        [g EXCEPT !.tr[k][VisOf(g.vi, e.a)[2]].r[2] = e.t]
                   [] e.x = "dp" ->
                        LET g2 == IF on /\ VisOf(g.vi, e.a) # None
                                  THEN [g EXCEPT !.tr[k][VisOf(g.vi, e.a)[2]].r[3] = e.t] ELSE g
                            d == CHOOSE j \in DOMAIN a.q : \E m \in DOMAIN ev : ev[m].x = "dst" /\ ev[m].v = j
                        IN IF a.kind = "net" /\ a.q[d].cls = "N" /\ a.q[d].coll
                           THEN [g2 EXCEPT !.tr[d] = Append(@, [a |-> e.a, r |-> <<e.t, 0, 0, 0, 0>>]),
                                           !.vi = SetVis(@, e.a, None)]
                           ELSE [g2 EXCEPT !.vi = SetVis(@, e.a, None)]
                   [] OTHER -> g
       IN Tell(a, o, b, ev, i + 1, g1)
Forget(g, ks) == [tr |-> [k \in DOMAIN g.tr |-> IF k \in ks THEN <<>> ELSE g.tr[k]],
                  vi |-> [x \in DOMAIN g.vi |-> IF g.vi[x][1] \in ks THEN None ELSE g.vi[x]]]
NextGhost(a, o, b, ev, g) ==
  IF o.o = "clear" THEN Forget(g, DOMAIN g.tr)
  ELSE IF o.o = "cleardata" THEN Forget(g, o.ks)
  ELSE Tell(a, o, b, ev, 1, g)
C07(b, tr) == /\ \A k \in DOMAIN b.q : b.q[k].data = tr[k]
              /\ \A k \in DOMAIN b.q : Rows(b.q[k], b.zero)

\* C08
Entries(s_) == UNION {{<<k, "a", x.t, x.a>> : x \in s_.q[k].arrs} \cup {<<k, "d", x.hi, x.a>> : x \in s_.q[k].deps}
                      : k \in DOMAIN s_.q}
C08(a, o, b, ev) ==
  a.kind = "net" /\ o.o = "nsim" =>
    /\ b.t >= a.t
    /\ (o.mode = "n" /\ o.n = 1) =>
         /\ b.t = NetNextT(a)
         /\ NetNextT(a) >= INF => b.nev = a.nev /\ b.q = a.q
         /\ NetNextT(a) < INF =>
              LET lost == Entries(a) \ Entries(b)
                  new == Entries(b) \ Entries(a)
                  drawn == {<<ev[i].k, "a", ev[i].v, ev[i].a>> : i \in {j \in DOMAIN ev : ev[j].x = "arr"}}
                           \cup {<<ev[i].k, "d", ev[i].v, ev[i].a>> : i \in {j \in DOMAIN ev : ev[j].x = "svc"}}
              IN /\ b.nev = a.nev + 1
                 \* exactly one event, an earliest one, left the calendar
                 /\ Cardinality(lost) = 1 /\ \A x \in lost : x[3] = b.t
                 /\ \A x \in new : x \in drawn \/ (a.bas /\ \E y \in lost : y[4] = x[4] /\ y[1] = x[1] /\ x[2] = "d")
                 /\ \A x \in drawn : x \in new \/ (x[2] = "a" /\ x[3] >= a.q[x[1]].dt)

\* C09
C09(a, o, b, ev) ==
  /\ Conserved(b) /\ AllKnown(b)
  /\ Single(o) =>
       \A x \in DOMAIN a.ag \ DOMAIN b.ag :
          \/ \E k \in DOMAIN a.q : Has(ev, "los", k, x) /\ \E y \in a.q[k].arrs : y.a = x
          \/ \E k \in DOMAIN a.q : Has(ev, "dp", k, x) /\
               (a.kind = "queue" \/ (\E i \in DOMAIN ev : ev[i].x = "dst" /\ ev[i].a = x /\ b.q[ev[i].v].cls = "N"))
          \/ a.ag[x].ty = "R"
  /\ Single(o) /\ a.kind = "net" =>
       \A i \in DOMAIN ev : ev[i].x = "dp" /\ ev[i].a \in DOMAIN b.ag =>
          \E j \in DOMAIN ev : ev[j].x = "dst" /\ ev[j].a = ev[i].a /\
             LET q == b.q[ev[j].v] IN
             InSet(q.line, ev[i].a) \/ (\E y \in q.deps : y.a = ev[i].a)
  /\ \A k \in DOMAIN b.q : Total(b.q[k]) = Cardinality(b.q[k].arrs) + Len(b.q[k].line) + Cardinality(b.q[k].deps)
                           \/ b.q[k].cls = "N"

\* C10
C10(a, o, b, ev) ==
  /\ IF o.o = "route" THEN \A k \in DOMAIN a.e : b.pos[k] = IF a.e[k][1] = o.n THEN k \in o.ks ELSE a.pos[k]
     ELSE b.pos = a.pos
  /\ \A i \in DOMAIN ev : ev[i].x = "dst" =>
    /\ a.e[ev[i].v][1] = a.e[ev[i].k][2]
    /\ (Single(o) /\ a.ag[ev[i].a].ty = "D") =>
         (a.pos[ev[i].v] \/ Cardinality({j \in DOMAIN a.e : a.e[j][1] = a.e[ev[i].k][2]}) = 1)
    \* an agent that leaves goes there
    /\ Single(o) /\ Has(ev, "dp", ev[i].k, ev[i].a) =>
         b.q[ev[i].v].cls = "N" \/ Has(ev, "av", ev[i].v, ev[i].a) \/ a.ag[ev[i].a].ty = "R"

\* C11
C11(a, o, b, ev) ==
  Single(o) => \A i \in DOMAIN ev : ev[i].x = "dst" /\ a.ag[ev[i].a].ty = "G" =>
    LET out == {j \in DOMAIN a.e : a.e[j][1] = a.e[ev[i].k][2]} IN
    \A j \in out : /\ Len(a.q[ev[i].v].line) <= Len(a.q[j].line)
                   /\ Len(a.q[ev[i].v].line) = Len(a.q[j].line) => ev[i].v <= j

\* C12
C12(a, o, b, ev) ==
  (a.kind = "net" /\ Single(o)) =>
    \A i \in DOMAIN ev : ev[i].x = "dst" =>
      LET k == ev[i].k
          d == ev[i].v
          x == ev[i].a
          full == AtCapacity(a.q[d]) /\ d # k /\ ~(a.q[d].cls = "R" /\ a.ag[x].ty = "R" /\ a.ag[x].has)
          other(q) == [q EXCEPT !.deps = {}, !.nblk = 0, !.now = 0]
      IN IF ~full THEN Has(ev, "dp", k, x)
         ELSE /\ \A j \in DOMAIN ev : ev[j].x \in {"dst", "svc"}
              /\ b.ag[x].blk = a.ag[x].blk + 1 /\ b.q[d].nblk = a.q[d].nblk + 1
              /\ \A j \in DOMAIN a.q : other(a.q[j]) = other(b.q[j]) /\ (j # d => a.q[j].nblk = b.q[j].nblk)
              /\ \A j \in DOMAIN a.q \ {k} : a.q[j].deps = b.q[j].deps
              /\ \E y \in a.q[k].deps, z \in b.q[k].deps :
                   /\ y.a = x /\ z.a = x /\ y.hi = b.t
                   /\ b.q[k].deps = (a.q[k].deps \ {y}) \cup {z}
                   /\ IF a.bas THEN z.hi = (IF DepT(a.q[d]) >= INF THEN INF ELSE DepT(a.q[d]) + 1)
                      ELSE \E j \in DOMAIN ev : ev[j].x = "svc" /\ ev[j].a = x /\ ev[j].k = k
                                                /\ ev[j].t = b.t /\ ev[j].v = z.hi

\* C13  (the maximum is not changed in these scenarios)
C13(a, o, b, ev) ==
  /\ NetTotal(b) <= b.maxa
  \* a queue turned inactive although it could go on: the network was full
  /\ Single(o) => \A k \in DOMAIN a.q :
       (a.q[k].active /\ ~b.q[k].active /\ b.q[k].oarr < b.q[k].cap /\ b.q[k].nct < b.q[k].dt)
          => NetTotal(a) >= a.maxa

\* C14
C14(a, o, b, ev) ==
  CASE o.o = "coll" -> \A k \in DOMAIN a.q : b.q[k] = IF k \in o.ks THEN [a.q[k] EXCEPT !.coll = o.b] ELSE a.q[k]
    [] o.o = "cleardata" -> /\ \A k \in DOMAIN a.q : k \notin o.ks => Same(a, b, k)
                            /\ \A k \in o.ks : b.q[k].data = <<>>
    [] o.o = "init" -> \A k \in DOMAIN a.q : k \notin o.ks => Same(a, b, k)
    [] OTHER -> TRUE

\* C15
Began(a) == IF a.t < INF THEN a.t ELSE MaxOf({a.q[k].now : k \in DOMAIN a.q})
C15(a, o, b, ev) ==
  o.o \in {"init", "initn"} =>
    LET drew == {k \in DOMAIN a.q : Num(ev, "arr", k) > 0}
        able(k) == a.q[k].cls # "N" /\ ~a.q[k].active /\ a.q[k].oarr < a.q[k].cap
                   /\ ~(Max2(a.q[k].now, Began(a)) < a.q[k].nct)
    IN /\ Entries(a) \subseteq Entries(b)
       /\ \A k \in drew : Num(ev, "arr", k) = 1 /\ \A i \in DOMAIN ev : ev[i].x = "arr" /\ ev[i].k = k
                              => ev[i].t = Max2(a.q[k].now, Began(a))
       /\ b.t = Began(a) /\ b.inited /\ b.nev = a.nev
       /\ \A k \in DOMAIN a.q : [a.q[k] EXCEPT !.active = FALSE, !.now = 0, !.nct = 0, !.oarr = 0, !.arrs = {}]
                                = [b.q[k] EXCEPT !.active = FALSE, !.now = 0, !.nct = 0, !.oarr = 0, !.arrs = {}]
       /\ o.o = "init" => /\ \A k \in o.ks : able(k) => (k \in drew \/ NetTotal(b) >= b.maxa)
                          /\ drew \subseteq o.ks
       /\ o.o = "initn" => Cardinality(drew) <= o.n

\* C16
C16(a, o, b, ev, cfg) ==
  o.o = "clear" =>
    LET fresh == NewInstance(cfg) IN
    /\ b.ag = << >> /\ b.t = a.zero /\ b.nev = 0 /\ ~b.inited /\ b.maxa = a.maxa /\ b.bas = a.bas /\ b.pos = a.pos
    /\ \A k \in DOMAIN a.q :
         [b.q[k] EXCEPT !.gen = 0, !.c = 0, !.coll = FALSE]
           = [fresh.q[k] EXCEPT !.gen = 0, !.c = 0, !.coll = FALSE]
         /\ b.q[k].c = a.q[k].c /\ b.q[k].coll = a.q[k].coll

\* C19
Carried(s_) == Cardinality({x \in DOMAIN s_.ag : s_.ag[x].has})
C19(a, o, b, ev) ==
  /\ (Single(o)) =>
       LET sent(x, cls) == \E i \in DOMAIN ev : ev[i].x = "dst" /\ ev[i].a = x /\ a.q[ev[i].v].cls = cls
           carries(x) == IF \E k \in DOMAIN a.q : Has(ev, "dp", k, x) /\ a.q[k].cls = "R"
                         THEN ~a.ag[x].has /\ \A k \in DOMAIN a.q : Has(ev, "dp", k, x) => a.q[k].c > 0
                         ELSE a.ag[x].has
           left == {x \in DOMAIN a.ag : a.ag[x].ty = "R" /\ carries(x) /\ \E k \in DOMAIN a.q : Has(ev, "dp", k, x)
                                         /\ (a.kind = "queue" \/ sent(x, "N"))}
       IN /\ Resources(b) = Resources(a) - Cardinality(left)
          \* nobody else changes hands
          /\ \A x \in DOMAIN a.ag \cap DOMAIN b.ag : a.ag[x].has # b.ag[x].has =>
               \E k \in DOMAIN a.q : a.q[k].cls = "R" /\ Has(ev, "dp", k, x)
          \* a carrier is always let in and vanishes
          /\ \A k \in DOMAIN a.q : a.q[k].cls = "R" =>
               \A i \in DOMAIN ev : ev[i].x = "dst" /\ ev[i].v = k /\ a.ag[ev[i].a].ty = "R" /\ a.ag[ev[i].a].has
                    /\ a.q[ev[i].k].cls # "R"
                  => ev[i].a \notin DOMAIN b.ag /\ b.q[k].c = a.q[k].c + 1 /\ b.q[k].nsys = a.q[k].nsys
  /\ \A k \in DOMAIN a.q : o.o # "clear" /\ Single(o) =>
       b.q[k].over = a.q[k].over + (IF b.q[k].c > a.q[k].c /\ b.q[k].c > a.q[k].maxs THEN 1 ELSE 0)

\* C20
Newer(x, y) == x.t >= y.t
C20(a, o, b, ev, ps) ==
  /\ o.o # "clear" =>
       /\ \A k \in DOMAIN a.q : \A j \in DOMAIN a.q[k].net : Newer(b.q[k].net[j], a.q[k].net[j])
       /\ \A x \in DOMAIN a.ag \cap DOMAIN b.ag : \A j \in DOMAIN a.ag[x].net : Newer(b.ag[x].net[j], a.ag[x].net[j])
  /\ \A k \in DOMAIN b.q : \A j \in DOMAIN b.q[k].net : b.q[k].net[j] = NoInfo \/ b.q[k].net[j] \in ps[j]
  /\ \A x \in DOMAIN b.ag : \A j \in DOMAIN b.ag[x].net : b.ag[x].net[j] = NoInfo \/ b.ag[x].net[j] \in ps[j]
  \* whoever enters, starts or departs knows the queue's state of that instant
  /\ \A i \in DOMAIN ev : ev[i].x \in {"av", "st", "dp"} /\ ev[i].a \in DOMAIN b.ag /\ a.q[ev[i].k].cls = "I"
        /\ b.ag[ev[i].a].ty = "I" => b.ag[ev[i].a].net[ev[i].k].t >= ev[i].t
  \* an arriving agent's newer entries are adopted
  /\ Single(o) => \A i \in DOMAIN ev : ev[i].x \in {"av", "los"} /\ ev[i].a \in DOMAIN a.ag /\ a.q[ev[i].k].cls = "I"
        /\ a.ag[ev[i].a].ty = "I" =>
           \A j \in DOMAIN a.ag[ev[i].a].net : Newer(b.q[ev[i].k].net[j], a.ag[ev[i].a].net[j])
  /\ o.o = "clear" => \A k \in DOMAIN b.q : \A j \in DOMAIN b.q[k].net : b.q[k].net[j] = NoInfo
NextPast(a, b, ev, ps) ==
  [k \in DOMAIN ps |-> ps[k] \cup {[t |-> b.q[k].now, c |-> b.q[k].c, ld |-> Load(b.q[k].nsys, b.q[k].c)]}
     \cup {[t |-> ev[i].t, c |-> ev[i].c, ld |-> Load(ev[i].ns, ev[i].c)]
           : i \in {j \in DOMAIN ev : ev[j].k = k /\ ev[j].x \in {"av", "st", "dp"}}}]

On(p) == p \in PROPS
StepBad(a, o, b, ev, g, ps, cfg) ==
  {p \in PROPS :
     ~CASE p = "C01" -> C01(a, o, b, ev) [] p = "C02" -> C02(a, o, b, ev) [] p = "C03" -> C03(a, o, b, ev)
        [] p = "C04" -> C04(a, o, b, ev) [] p = "C05" -> C05(a, o, b, ev) [] p = "C06" -> C06(a, o, b, ev)
        [] p = "C07" -> C07(b, g.tr)     [] p = "C08" -> C08(a, o, b, ev) [] p = "C09" -> C09(a, o, b, ev)
        [] p = "C10" -> C10(a, o, b, ev) [] p = "C11" -> C11(a, o, b, ev) [] p = "C12" -> C12(a, o, b, ev)
        [] p = "C13" -> C13(a, o, b, ev) [] p = "C14" -> C14(a, o, b, ev) [] p = "C15" -> C15(a, o, b, ev)
        [] p = "C16" -> C16(a, o, b, ev, cfg) [] p = "C19" -> C19(a, o, b, ev) [] p = "C20" -> C20(a, o, b, ev, ps)
        [] OTHER -> FALSE}

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
Plain(o) == o = next \/ o = step1
Draws(ev) == [i \in DOMAIN SelectSeq(ev, LAMBDA y : y.x \in {"arr", "svc", "dst"}) |->
                LET y == SelectSeq(ev, LAMBDA z : z.x \in {"arr", "svc", "dst"})[i] IN <<y.x, y.k, y.t, y.v>>]
Take(o) ==
  /\ Possible(s, o)
  /\ \E E \in Do([s |-> s, h |-> <<>>, bad |-> ""], o) :
       LET cfg == Scenario(sc).cfg
           g == IF On("C07") THEN NextGhost(s, o, E.s, E.h, [tr |-> truth, vi |-> vis]) ELSE [tr |-> truth, vi |-> vis]
           ps == IF On("C20") THEN NextPast(s, E.s, E.h, past) ELSE past
       IN /\ s' = TLCEval(E.s) /\ truth' = TLCEval(g.tr)
          /\ vis' = TLCEval([x \in DOMAIN g.vi \cap DOMAIN E.s.ag |-> g.vi[x]]) /\ past' = TLCEval(ps)
          /\ viol' = StepBad(s, o, E.s, E.h, g, ps, cfg) \cup (IF E.bad = "" THEN {} ELSE {E.bad})
          /\ hist' = IF Emitting THEN Append(hist, [o |-> o, d |-> Draws(E.h)]) ELSE hist + (IF Plain(o) THEN 0 ELSE 1)
  /\ n' = n + 1 /\ sc' = sc

Init ==
  \E x \in SCEN :
    LET cfg == Scenario(x).cfg IN
    /\ sc = x /\ s = NewInstance(cfg) /\ n = 0 /\ viol = {} /\ hist = (IF Emitting THEN <<>> ELSE 0)
    /\ truth = [k \in DOMAIN cfg.qs |-> <<>>] /\ vis = << >>
    /\ past = [k \in DOMAIN cfg.qs |-> {}]
\* complete behaviours are only printed to a depth at which they can be counted
Shallower == CASE sc \in {"stop", "nstop", "init"} -> 2
               [] sc \in {"qdelay", "bas2", "rs2", "default", "maxa", "maxrs", "ring"} -> 1
               [] OTHER -> 0
Depth == IF Emitting /\ ~Random THEN DEPTH - Shallower ELSE DEPTH
Used == IF Emitting THEN Len(SelectSeq(hist, LAMBDA h : ~Plain(h.o))) - 1 ELSE hist - 1
Next ==
  IF n = 0 THEN Take(Scenario(sc).boot)
  ELSE /\ n <= Depth
       /\ \E o \in Scenario(sc).menu : (Plain(o) \/ Used < Scenario(sc).few) /\ Take(o)
Stuck == n > 0 /\ ~\E o \in Scenario(sc).menu : (Plain(o) \/ Used < Scenario(sc).few) /\ Possible(s, o)
Spec == Init /\ [][Next]_vars

Holds == viol = {}
Gen == (Emitting /\ (n = Depth + 1 \/ Stuck)) =>
         PrintT(<<"GEN", ToJson([sc |-> sc, cfg |-> Scenario(sc).cfg, hist |-> hist])>>)
=============================================================================
