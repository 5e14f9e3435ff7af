------------------------------ MODULE GraphPrep ------------------------------
(***************************************************************************)
(* What a network is built of: from a caller's graph (in any accepted      *)
(* form) to typed, indexed edges, each with its queue.                     *)
(* One record per conversion: the input, everything observed of the result.*)
(*   cfg.nodes, cfg.es   vertices and edges [e, ty] (ty = -1: none given)  *)
(*   cfg.form   "digraph", "graph" (undirected), "dict", "matrix"          *)
(*   cfg.mode   "net" (QueueNetwork, adjusted), "raw" (QueueNetwork, not   *)
(*              adjusted), "conv1", "conv2" (adjacency2graph)              *)
(***************************************************************************)
EXTENDS OpTrace

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PStart(cfg) == cfg

\* edges and types as a function <<u,v>> -> type; undirected edges go both ways
Symmetric(f) == LET D == DOMAIN f \cup {<<e[2], e[1]>> : e \in DOMAIN f}
                IN [e \in D |-> IF e \in DOMAIN f THEN f[e] ELSE f[<<e[2], e[1]>>]]
Given(cfg) == LET es == cfg.es
                  f == [e \in {es[i].e : i \in DOMAIN es} |->
                          (es[CHOOSE i \in DOMAIN es : es[i].e = e]).ty]
              IN IF cfg.form = "graph" THEN Symmetric(f) ELSE f
Typed(f) == [e \in DOMAIN f |-> IF f[e] = -1 THEN 1 ELSE f[e]]
Terminals(f, V) == {v \in V : \A e \in DOMAIN f : e[1] # v}
ToTerminals(f, V) == [e \in DOMAIN f |-> IF e[2] \in Terminals(f, V) THEN 0 ELSE f[e]]
WithLoops(f, V) == LET L == {<<v, v>> : v \in Terminals(f, V)}
                   IN [e \in DOMAIN f \cup L |-> IF e \in L THEN 0 ELSE f[e]]
\* a network converts a dict first (even when it does not adjust), adding loops, before it adjusts
Result(cfg) ==
  LET f == Typed(Given(cfg))
      V == Range(cfg.nodes)
  IN CASE cfg.mode = "conv1" -> WithLoops(f, V)
       [] cfg.mode = "conv2" -> ToTerminals(f, V)
       [] cfg.mode = "net"   -> IF cfg.form = "dict" THEN WithLoops(f, V) ELSE ToTerminals(f, V)
       [] cfg.mode = "raw"   -> IF cfg.form = "dict" THEN WithLoops(f, V) ELSE f

Default == [cls |-> [y \in 0..4 |-> IF y = 0 THEN "NullQueue" ELSE IF y = 1 THEN "QueueServer" ELSE "LossQueue"]]
\* cfg.q: configured types, [y, cls ("" = default), c (0 = default), cap (-1 = default)]
Conf(cfg, y) == LET m == {i \in DOMAIN cfg.q : cfg.q[i].y = y}
                IN IF m = {} THEN [y |-> y, cls |-> "", c |-> 0, cap |-> -1]
                   ELSE cfg.q[CHOOSE i \in m : TRUE]
ClassOf(cfg, y) == IF Conf(cfg, y).cls = "" THEN Default.cls[y] ELSE Conf(cfg, y).cls
Servers(cfg, y) ==
  CASE ClassOf(cfg, y) = "NullQueue" -> 0
    [] Conf(cfg, y).c # 0 -> Conf(cfg, y).c
    [] ClassOf(cfg, y) = "ResourceQueue" -> 10
    [] OTHER -> 1
CapOf(cfg, y) == IF Conf(cfg, y).cap = -1 THEN INF ELSE Conf(cfg, y).cap

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Asc(S \ {MinOf(S)})

PApply(cfg, ln) ==
  LET f == Result(cfg)
      D == DOMAIN f
      V == Range(cfg.nodes)
      at == [e \in D |-> Cardinality({g \in D : Less(g, e)})]
      o == ln.o
      net == cfg.mode \in {"net", "raw"}
      ok == ln.err = "" /\ Range(o.edges) = D /\ Len(o.edges) = Cardinality(D)
  IN IF ~ok THEN Verify(cfg, << <<ln.err = "", "raised">>, <<FALSE, "edges">> >>)
     ELSE Verify(cfg, <<
       <<Range(o.nodes) = V, "vertices">>,
       <<\A i \in DOMAIN o.types : o.types[i].ty = f[o.types[i].e], "edge-types">>,
       <<{o.types[i].e : i \in DOMAIN o.types} = D, "edge-types">>,
       <<o.before = o.after, "caller-graph-modified">>,
       <<net => \A i \in DOMAIN o.index : o.index[i].i = at[o.index[i].e], "edge-index">>,
       <<net => Len(o.index) = Cardinality(D), "edge-index">>,
       <<net => Len(o.queues) = Cardinality(D), "queue-count">>,
       <<net => \A k \in DOMAIN o.queues :
            LET q == o.queues[k] IN
            /\ <<q.u, q.v>> \in D /\ at[<<q.u, q.v>>] = k - 1 /\ q.i = k - 1
            /\ q.ty = f[<<q.u, q.v>>], "queue-edge">>,
       <<net => \A k \in DOMAIN o.queues :
            LET q == o.queues[k] IN q.cls = ClassOf(cfg, q.ty), "queue-class">>,
       <<net => \A k \in DOMAIN o.queues :
            LET q == o.queues[k] IN q.c = Servers(cfg, q.ty) /\ (q.ty # 0 => q.cap = CapOf(cfg, q.ty)),
         "queue-arguments">>,
       <<net => \A v \in V : o.out[v] = Asc({at[e] : e \in {g \in D : g[1] = v}}), "out-edges">>,
       <<net => \A v \in V : o.in[v] = Asc({at[e] : e \in {g \in D : g[2] = v}}), "in-edges">>,
       <<net => o.nv = Cardinality(V) /\ o.ne = Cardinality(D), "sizes">> >>)
=============================================================================
