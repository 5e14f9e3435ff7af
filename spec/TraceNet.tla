------------------------------ MODULE TraceNet ------------------------------
(***************************************************************************)
(* Trace validation: every line of a recorded trace is one public call on  *)
(* the real code, with what the environment functions received/returned    *)
(* and what callbacks observed during the call, and the full public state  *)
(* of every live instance after it.  A trace is a behaviour of QueueNet    *)
(* iff all its lines can be consumed.  The verdict is total: a line that   *)
(* cannot be consumed yields the name of the first failing clause.         *)
(*                                                                         *)
(* Many traces are validated in one run, one TLC behaviour per trace.      *)
(***************************************************************************)
EXTENDS QueueNet, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid,    \* which trace
          l,      \* next line
          cand,   \* per live instance, the set of specification states it may be in
          bad     \* "" or the failing clause
vars == <<tid, l, cand, bad>>

Eps(t) == IF t >= INF THEN INF ELSE Traces[tid].eps[t]

(***************************************************************************)
(* The environment, read off the current line's log                        *)
(***************************************************************************)
Kinds == {"arr", "svc", "dst", "st", "av", "dp", "los", "new"}
Ptr(E, kind) == E.h.p[kind]
Have(E, kind) == Ptr(E, kind) <= Len(E.h.L[kind])
Cur(E, kind) == E.h.L[kind][Ptr(E, kind)]
Adv(E, kind) == [E EXCEPT !.h.p[kind] = @ + 1]

TDrawArr(E, k, now) ==
  IF ~Have(E, "arr") THEN {[e |-> Bad(E, "arr-missing"), v |-> INF]}
  ELSE LET x == Cur(E, "arr")
           E1 == Adv(E, "arr")
           E2 == IF x[1] # k THEN Bad(E1, "arr-queue")
                 ELSE IF x[2] # now THEN Bad(E1, "arr-time") ELSE E1
       IN {[e |-> E2, v |-> x[3]]}
TDrawSvc(E, k, a, now) ==
  IF ~Have(E, "svc") THEN {[e |-> Bad(E, "svc-missing"), v |-> INF]}
  ELSE LET x == Cur(E, "svc")
           E1 == Adv(E, "svc")
           E2 == IF x[1] # k THEN Bad(E1, "svc-queue")
                 ELSE IF x[2] # now THEN Bad(E1, "svc-time") ELSE E1
       IN {[e |-> E2, v |-> x[3]]}
TDrawDest(E, k, a) ==
  IF ~Have(E, "dst") THEN {[e |-> Bad(E, "dst-missing"), v |-> k]}
  ELSE LET x == Cur(E, "dst")
           E1 == Adv(E, "dst")
           E2 == CASE x[1] # k -> Bad(E1, "dst-queue")
                   [] x[2] # a -> Bad(E1, "dst-agent")
                   [] x[4] # E.s.ag[a].blk -> Bad(E1, "agent-blocked-count")
                   [] E.s.ag[a].ty = "G" /\ x[3] # GreedyChoice(E.s, k) -> Bad(E1, "greedy-choice")
                   [] x[3] \notin OutEdges(E.s, E.s.e[k][2]) -> Bad(E1, "dst-not-out-edge")
                   [] E.s.ag[a].ty = "D" /\ x[3] \notin Reachable(E.s, k) -> Bad(E1, "dst-of-probability-zero")
                   [] OTHER -> E1
       IN {[e |-> E2, v |-> x[3]]}
TEmit(E, kind, k, a) ==
  IF ~Have(E, kind) THEN Bad(E, kind \o "-missing")
  ELSE LET x == Cur(E, kind)
           E1 == Adv(E, kind)
       IN IF x[1] # k THEN Bad(E1, kind \o "-queue")
          ELSE IF x[2] # a THEN Bad(E1, kind \o "-agent")
          ELSE IF kind \in {"av", "st", "dp"} /\ E.s.ag[a].ty = "I" /\ x[3] # E.s.ag[a].net
          THEN Bad(E1, "agent-information") ELSE E1
TRetime(T) == [lo |-> T, hi |-> Eps(T)]

Left(E) == LET left == {kd \in Kinds : Have(E, kd)}
           IN IF left = {} THEN E ELSE Bad(E, (CHOOSE kd \in left : TRUE) \o "-extra")

(***************************************************************************)
(* Selections of queues                                                    *)
(***************************************************************************)
Range(sq) == {sq[i] : i \in DOMAIN sq}
Sel(s, sel) ==
  CASE sel.kind = "all" -> DOMAIN s.e
    [] sel.kind = "q"   -> Range(sel.v)
    [] sel.kind = "e"   -> {k \in DOMAIN s.e : <<s.e[k][1], s.e[k][2]>> \in Range(sel.v)}
    [] sel.kind = "ty"  -> {k \in DOMAIN s.e : s.e[k][3] \in Range(sel.v)}
NonTerminal(s, ks) == {k \in ks : s.e[k][3] # 0}

RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o AscSeq(S \ {MinOf(S)})
LogOrder(L) == [i \in 1..Len(L.arr) |-> L.arr[i][1]]
\* Queues that activation, now, gives nothing to draw.  Activating one changes
\* nothing but that queue, so what was observed of it tells whether it was
\* activated: it must have been (Sure), or it makes no difference (Idle).
Mute(E, ks) == {k \in ks : \E e \in NetInit(E, <<k>>) : e.bad = ""}
Touched(E, k) == (CHOOSE e \in NetInit(E, <<k>>) : e.bad = "").s.q[k]
Idle(E, M) == {k \in M : Touched(E, k) = E.s.q[k]}
Sure(E, M, ln) ==
  LET o == ln.obs[CHOOSE j \in DOMAIN ln.obs : ln.obs[j].i = ln.i]
  IN {k \in M \ Idle(E, M) : o.q[k].act = Touched(E, k).active /\ o.q[k].now = Touched(E, k).now}

InitErr(s, ln) ==            \* the error initialize must raise, or ""
  IF ln.sel.kind = "n" THEN ln.sel.err
  ELSE IF NonTerminal(s, Sel(s, ln.sel)) = {} THEN "QueueingToolError" ELSE ""

DoInit(E, ln) ==
  LET s == E.s
      lo == LogOrder(ln.log)
  IN IF InitErr(s, ln) # "" THEN {E}
     ELSE IF ln.sel.kind = "n"
     THEN \* m random queues: those that drew an arrival, some that were active
          \* already (no effect), and some that activation gives nothing to draw
          LET nn == NonTerminal(s, DOMAIN s.e)
              m == Min2(ln.sel.n, Cardinality(nn))
              newly == Range(lo)
              act == {k \in nn : s.q[k].active}
              rest == nn \ (newly \cup act)
              room == m - Cardinality(newly)
              mute == Mute(E, rest)
              sure == Sure(E, mute, ln)
              tries == IF Cardinality(sure) > room THEN {} ELSE NetInit(E, AscSeq(sure) \o lo)
              enough == Cardinality(sure) + Cardinality(Idle(E, mute)) >= room - Cardinality(act)
              few == IF enough THEN tries ELSE {}
              any == {e \in tries : NetTotal(e.s) >= s.maxa}
          IN IF ~(newly \subseteq nn) \/ Cardinality(newly) # Len(lo)
             THEN {Bad(E, "init-selection")}
             ELSE IF room < 0 THEN {Bad(E, "init-too-many")}
             ELSE IF few \cup any = {} THEN {Bad(E, "init-too-few")} ELSE few \cup any
     ELSE LET ks == NonTerminal(s, Sel(s, ln.sel))
              \* in some order: those that draw nothing come before or after
              rest == {k \in ks \ Range(lo) : ~s.q[k].active}
              first == IF s.maxa >= INF THEN rest ELSE Sure(E, Mute(E, rest), ln)
          IN IF ~(Range(lo) \subseteq ks) THEN {Bad(E, "init-selection")}
             ELSE NetInit(E, AscSeq(first) \o lo \o AscSeq(rest \ first))

(***************************************************************************)
(* One line                                                                *)
(***************************************************************************)
Op(E, ln) ==
  CASE ln.op = "nop"          -> {E}
    [] ln.op = "set_active"   -> SetActive(E, ln.k)
    [] ln.op = "set_inactive" -> SetInactive(E, ln.k)
    [] ln.op = "set_servers"  -> SetServers(E, ln.k, ln.n)
    [] ln.op = "next"         -> QNext(E, ln.k)
    [] ln.op = "sim"          -> IF ln.mode = "n" THEN QSimN({E}, ln.k, ln.n)
                                 ELSE IF ln.mode = "t" THEN QSimUntil({E}, ln.k, "t", ln.n)
                                 ELSE IF ln.mode = "nD"
                                 THEN QSimUntil({E}, ln.k, "nD", E.s.q[ln.k].ndep + ln.n)
                                 ELSE QSimUntil({E}, ln.k, "nA", E.s.q[ln.k].oarr + ln.n)
    [] ln.op = "delay"        -> Delay(E, ln.k, ln.n)
    [] ln.op = "clear"        -> Clear(E)
    [] ln.op = "coll"         -> SetColl(E, Sel(E.s, ln.sel), ln.b)
    [] ln.op = "cleardata"    -> ClearData(E, Sel(E.s, ln.sel))
    [] ln.op = "init"         -> DoInit(E, ln)
    [] ln.op = "nsim"         -> IF ln.mode = "n" THEN NSimN({E}, ln.n) ELSE NSimT({E}, ln.n)
    [] ln.op = "maxa"         -> {[E EXCEPT !.s.maxa = ln.n]}
    [] ln.op = "bas"          -> {[E EXCEPT !.s.bas = ln.b]}
    [] ln.op = "route"        -> Route(E, ln.n, Range(ln.on))
    [] ln.op \in {"copy", "bad"} -> {E}

\* The error an invalid request must raise
BadErr(s, ln) ==
  CASE ln.mode = "servers-other"       -> "TypeError"
    [] ln.mode = "servers-integer"     -> IF ln.n <= 0 THEN "ValueError" ELSE ""
    [] ln.mode = "blocking-other"      -> "TypeError"
    [] ln.mode = "transitions-other"   -> "TypeError"
    [] ln.mode = "transitions-invalid" -> "ValueError"
    [] ln.mode = "animate"             -> IF s.inited THEN "" ELSE "QueueingToolError"
    [] ln.mode = "graph-other"         -> "TypeError"

\* The error the call must raise
WantErr(s, ln) == IF ln.op = "init" THEN InitErr(s, ln)
                  ELSE IF ln.op = "nsim" THEN (IF s.inited THEN "" ELSE "QueueingToolError")
                  ELSE IF ln.op = "bad" THEN BadErr(s, ln)
                  ELSE ln.want

\* The agent that next_event must return: the one that departed, if any
RetOK(E0, E, ln) ==
  ln.op # "next" \/
  LET gone == {x.a : x \in FirstDeps(E0.s.q[ln.k])} \ {x.a : x \in E.s.q[ln.k].deps}
  IN IF NextKind(E0.s.q[ln.k]) = 2 THEN {ln.ret} = gone ELSE ln.ret = <<>>

RunOne(E, ln) ==
  LET want == WantErr(E.s, ln) IN
  IF ln.err # want THEN {Bad(E, IF want = "" THEN "raised-" \o ln.err ELSE "not-raised-" \o want)}
  ELSE IF want # "" THEN {Left(E)}
  ELSE {LET E2 == Left(E1) IN IF E2.bad = "" /\ ~RetOK(E, E2, ln) THEN Bad(E2, "returned-agent") ELSE E2
        : E1 \in Op(E, ln)}

(***************************************************************************)
(* Observed state                                                          *)
(***************************************************************************)
\* Departure times known only up to an interval (an agent waiting for room
\* elsewhere) become exact as soon as the queue announces them.
ResolveQ(s, k, T) ==
  LET q  == s.q[k]
      fz == {x \in q.deps : x.lo < x.hi}
      ex == Min2(ArrT(q), MinOf({x.lo : x \in q.deps \ fz}))
      later(D, t) == {IF x.lo < x.hi /\ x.lo + 1 < t THEN [x EXCEPT !.lo = Min2(t - 1, x.hi)]
                      ELSE x : x \in D}
  IN IF fz = {} \/ q.cls = "N" THEN {s}
     ELSE IF T = ex THEN {[s EXCEPT !.q[k].deps = later(@, T)]}
     ELSE LET may == {x \in fz : x.lo < T /\ T <= x.hi /\ T < ex}
          IN IF may = {} THEN {s}
             ELSE {[s EXCEPT !.q[k].deps = later(@ \ {x}, T) \cup {[x EXCEPT !.lo = T, !.hi = T]}]
                   : x \in may}
RECURSIVE ResolveAll(_, _, _)
ResolveAll(S, k, oq) == IF k > Len(oq) THEN S
                        ELSE ResolveAll(UNION {ResolveQ(s, k, oq[k].T) : s \in S}, k + 1, oq)

RowBagEq(rows, obs) ==
  /\ Len(rows) = Len(obs)
  /\ Range(rows) = Range(obs)
  /\ Cardinality(Range(rows)) < Len(rows) =>
       \A r \in Range(rows) : Cardinality({i \in DOMAIN rows : rows[i] = r})
                              = Cardinality({i \in DOMAIN obs : obs[i] = r})
RowsOf(s, k) == [i \in DOMAIN s.q[k].data |-> s.q[k].data[i].r \o <<k>>]
SortedRows(obs) == \A i \in 1..(Len(obs) - 1) : obs[i][1] <= obs[i + 1][1]

RECURSIVE Cat(_)
Cat(sq) == IF sq = <<>> THEN <<>> ELSE Head(sq) \o Cat(Tail(sq))

AgentRows(s, ks, a) ==
  Cat([j \in 1..Len(s.q) |->
        IF j \notin ks THEN <<>>
        ELSE LET mine == SelectSeq(s.q[j].data, LAMBDA r : r.a = a)
             IN [i \in DOMAIN mine |-> mine[i].r \o <<j>>]])

QDiff(s, k, o) ==
  LET q == s.q[k]
      nul == q.cls = "N"
  IN {c \in {
       IF o.T # NextT(q) THEN "time" ELSE "",
       IF o.now # q.now THEN "current-time" ELSE "",
       IF o.nsys # q.nsys THEN "num-system" ELSE "",
       IF o.nq # Len(q.line) THEN "num-queued" ELSE "",
       IF o.narr # q.narr THEN "num-arrivals" ELSE "",
       IF o.oarr # q.oarr THEN "num-outside" ELSE "",
       IF o.ndep # q.ndep THEN "num-departures" ELSE "",
       IF o.nblk # q.nblk THEN "num-blocked" ELSE "",
       IF o.act # q.active THEN "active" ELSE "",
       IF ~nul /\ o.c # q.c THEN "num-servers" ELSE "",
       IF o.capd # AtCapacity(q) THEN "at-capacity" ELSE "",
       IF o.ned # NextKind(q) THEN "next-event-kind" ELSE "",
       IF o.coll # q.coll THEN "collecting" ELSE "",
       IF q.cls = "R" /\ o.over # q.over THEN "over-max" ELSE "",
       IF o.hasnet /\ o.net # q.net THEN "queue-information" ELSE "",
       IF o.hasrows /\ ~RowBagEq(RowsOf(s, k), o.rows) THEN "rows" ELSE "",
       IF o.hasrows /\ ~SortedRows(o.rows) THEN "rows-order" ELSE ""
     } : c # ""}

NDiff(s, o) ==
  {c \in {
    IF o.t # s.t THEN "net-current-time" ELSE "",
    IF o.nev # s.nev THEN "net-num-events" ELSE "",
    IF o.T # NetNextT(s) THEN "net-time" ELSE "",
    IF \E k \in DOMAIN s.q : o.nag[k] # Total(s.q[k]) THEN "net-num-agents" ELSE "",
    IF o.maxa # s.maxa THEN "net-max-agents" ELSE "",
    IF o.bas # s.bas THEN "net-blocking" ELSE "",
    IF ~s.inited \/ NetNextT(s) >= INF
    THEN IF o.nedk # 0 THEN "net-next-event" ELSE ""
    ELSE IF o.nede \notin DOMAIN s.q THEN "net-next-event"
    ELSE IF NextT(s.q[o.nede]) # NetNextT(s) \/ o.nedk # NextKind(s.q[o.nede])
    THEN "net-next-event" ELSE ""
  } : c # ""}

\* Results of data queries attached to a line (after its operation)
GetDiff(s, g) ==
  CASE g.what = "queue" ->
        IF RowBagEq(Cat([j \in 1..Len(s.q) |-> IF j \in Sel(s, g.sel) THEN RowsOf(s, j) ELSE <<>>]), g.rows)
        THEN {} ELSE {"queue-data"}
    [] g.what = "agent" ->
        LET ks == Sel(s, g.sel)
            ids == UNION {{s.q[j].data[i].a : i \in DOMAIN s.q[j].data} : j \in ks}
        IN IF {g.agents[i].a : i \in DOMAIN g.agents} # ids
              \/ \E i \in DOMAIN g.agents :
                   ~RowBagEq(AgentRows(s, ks, g.agents[i].a), g.agents[i].rows)
                   \/ ~SortedRows(g.agents[i].rows)
           THEN {"agent-data"} ELSE {}

\* The invariants of the specification, evaluated in every validated state
Invs(s) ==
  {c \in {
    IF \E k \in DOMAIN s.q : ~NoPast(s.q[k]) THEN "inv-no-past" ELSE "",
    IF \E k \in DOMAIN s.q : s.q[k].cls \in {"Q", "L", "I"} /\ ~Counters(s.q[k]) THEN "inv-counters" ELSE "",
    IF \E k \in DOMAIN s.q : ~Outside(s.q[k], k) THEN "inv-outside" ELSE "",
    IF \E k \in DOMAIN s.q : ~Rows(s.q[k], s.zero) THEN "inv-rows" ELSE "",
    IF ~Conserved(s) \/ ~AllKnown(s) THEN "inv-conserved" ELSE ""
  } : c # ""}

Diff(s, o) == UNION {QDiff(s, k, o.q[k]) : k \in DOMAIN s.q}
              \cup (IF s.kind = "net" THEN NDiff(s, o.net) ELSE {})
              \cup UNION {GetDiff(s, o.get[i]) : i \in DOMAIN o.get}

\* candidates of one instance after its observation: <<states, clause>>
Observe(S, o) ==
  LET R  == UNION {ResolveAll({s}, 1, o.q) : s \in S}
      ok == {s \in R : Diff(s, o) = {}}
  IN IF ok # {} THEN <<ok, "">>
     ELSE LET s == CHOOSE s \in R : TRUE
          IN <<{}, CHOOSE c \in Diff(s, o) : TRUE>>

\* When several observations differ, report them all.
AllClauses(S, o) ==
  LET R == UNION {ResolveAll({s}, 1, o.q) : s \in S}
      s == CHOOSE s \in R : \A s2 \in R : Cardinality(Diff(s, o)) <= Cardinality(Diff(s2, o))
  IN Diff(s, o)

H0(ln) == [L |-> ln.log, p |-> [kd \in Kinds |-> 1]]

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ cand = [i \in {1} |-> {NewInstance(Traces[tid].cfg)}]
             /\ bad = {}

Step ==
  LET tr == Traces[tid]
      ln == tr.lines[l]
      Es == Good(UNION {RunOne([s |-> s, h |-> H0(ln), bad |-> ""], ln) : s \in cand[ln.i]})
      worst == {e.bad : e \in Es} \ {""}
      ok == worst = {}
      c1 == IF ln.op = "copy" THEN [i \in DOMAIN cand \cup {ln.new} |->
                                       IF i = ln.new THEN cand[ln.i] ELSE cand[i]]
            ELSE [cand EXCEPT ![ln.i] = {e.s : e \in Es}]
      seen == [j \in 1..Len(ln.obs) |-> Observe(c1[ln.obs[j].i], ln.obs[j])]
      fails == UNION {IF seen[j][2] = "" THEN {} ELSE
                        {IF ln.obs[j].i = (IF ln.op = "copy" THEN ln.new ELSE ln.i) THEN c
                         ELSE "other-instance-" \o c : c \in AllClauses(c1[ln.obs[j].i], ln.obs[j])}
                      : j \in DOMAIN seen}
      c2 == [i \in DOMAIN c1 |->
               IF \E j \in DOMAIN seen : ln.obs[j].i = i
               THEN (seen[CHOOSE j \in DOMAIN seen : ln.obs[j].i = i])[1] ELSE c1[i]]
  IN /\ bad = {} /\ l <= Len(tr.lines)
     /\ tid' = tid
     /\ IF ~ok
        THEN l' = l /\ cand' = cand /\ bad' = worst
        ELSE IF fails # {} THEN l' = l /\ cand' = cand /\ bad' = fails
        ELSE LET inv == UNION {UNION {Invs(s) : s \in c2[i]} : i \in {ln.i}}
             IN IF inv # {} THEN l' = l /\ cand' = cand /\ bad' = inv
                ELSE l' = l + 1 /\ cand' = c2 /\ bad' = {}

TraceSpec == TraceInit /\ [][Step]_vars

\* Verdicts are printed; nothing is an error for TLC.
Verdict ==
  /\ (bad # {} => PrintT(<<"BAD", Traces[tid].id, l, ToJson(bad), ToJson(cand)>>))
  /\ ((bad = {} /\ l = Len(Traces[tid].lines) + 1) => PrintT(<<"END", Traces[tid].id, l - 1>>))
=============================================================================
