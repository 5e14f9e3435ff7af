------------------------------- MODULE DiGraph -------------------------------
(***************************************************************************)
(* The graph object: stable unique edge indices, edge and vertex           *)
(* properties.  Vertices are 1..n (0..n-1 in the code), values are texts.  *)
(*  state: idx    function from edges <<u, v>> to indices                  *)
(*         nodes  set of vertices                                          *)
(*         ep, vp sets of [x, name, v] (x an edge or a vertex)             *)
(*         ecol   colors by edge or <<>> ; pos  positions by vertex or <<>>*)
(***************************************************************************)
EXTENDS OpTrace

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE SortEdges(_)
SortEdges(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE e \in S : \A f \in S : f = e \/ Less(e, f)
                     IN <<m>> \o SortEdges(S \ {m})
Positions(S) == [e \in S |-> Cardinality({f \in S : Less(f, e)})]

DStart(cfg) ==
  LET E == Range(cfg.edges) IN
  [idx |-> Positions(E), nodes |-> Range(cfg.nodes),
   ep |-> Range(cfg.ep), vp |-> Range(cfg.vp), ecol |-> << >>, vcol |-> << >>,
   gone |-> << >>]   \* removed edges and the indices they had

Edges(s) == DOMAIN s.idx
Get(P, x, name) == LET m == {p \in P : p.x = x /\ p.name = name}
                   IN IF m = {} THEN "None" ELSE (CHOOSE p \in m : TRUE).v
Put(P, x, name, v) == {p \in P : ~(p.x = x /\ p.name = name)} \cup {[x |-> x, name |-> name, v |-> v]}
NONE4 == "[0.0, 0.0, 0.0, 0.0]"

\* the next free index.  Once edges were removed that may be any index no
\* edge has (ob: what was observed)
Observed(ob, e) == LET m == {i \in DOMAIN ob.idx : ob.idx[i].e = e}
                   IN IF m = {} THEN -1 ELSE ob.idx[CHOOSE i \in m : TRUE].i
NewIndex(s, e, ob) ==
  LET n == Cardinality(Edges(s)) + Cardinality(DOMAIN s.gone)
      seen == Observed(ob, e)
  IN IF DOMAIN s.gone # {} /\ seen \in 0..n /\ \A f \in Edges(s) : s.idx[f] # seen THEN seen ELSE n
AddEdge(s, e, attrs, ob) ==
  LET s1 == [s EXCEPT !.nodes = @ \cup {e[1], e[2]}]
      s2 == IF e \in Edges(s) THEN s1
            ELSE [s1 EXCEPT !.idx = [f \in Edges(s) \cup {e} |->
                     IF f = e THEN NewIndex(s, e, ob) ELSE s.idx[f]],
                  !.ecol = IF DOMAIN @ = {} THEN @
                           ELSE [f \in DOMAIN @ \cup {e} |-> IF f = e THEN NONE4 ELSE @[f]]]
      RECURSIVE puts(_, _)
      puts(P, as) == IF as = <<>> THEN P ELSE puts(Put(P, e, Head(as).name, Head(as).v), Tail(as))
  IN [s2 EXCEPT !.ep = puts(@, attrs)]

RECURSIVE AddEdges(_, _, _)
AddEdges(s, es, ob) == IF es = <<>> THEN s ELSE AddEdges(AddEdge(s, Head(es).e, Head(es).attrs, ob), Tail(es), ob)

RECURSIVE PutAll(_, _, _, _)
PutAll(P, X, name, v) == IF X = {} THEN P
                         ELSE LET x == CHOOSE x \in X : TRUE IN PutAll(Put(P, x, name, v), X \ {x}, name, v)

Do(s, ln) ==
  CASE ln.op = "add_edge" -> AddEdge(s, ln.e, ln.attrs, ln.o)
    [] ln.op = "add_edges" -> AddEdges(s, ln.es, ln.o)
    [] ln.op = "remove" -> [s EXCEPT !.idx = [f \in Edges(s) \ {ln.e} |-> @[f]],
                              !.gone = [f \in DOMAIN @ \cup {ln.e} |-> IF f = ln.e THEN s.idx[f] ELSE @[f]],
                              !.ep = {x \in @ : x.x # ln.e}]
    [] ln.op = "set_ep" -> [s EXCEPT !.ep = Put(@, ln.e, ln.name, ln.v),
                              !.ecol = IF ln.name = "edge_color" /\ DOMAIN @ # {} THEN [@ EXCEPT ![ln.e] = ln.v] ELSE @]
    [] ln.op = "set_vp" -> [s EXCEPT !.vp = Put(@, ln.x, ln.name, ln.v),
                              !.vcol = IF ln.name = "vertex_fill_color" /\ DOMAIN @ # {} THEN [@ EXCEPT ![ln.x] = ln.v] ELSE @]
    [] ln.op = "new_ep" -> [s EXCEPT !.ep = PutAll(@, Edges(s), ln.name, "None"),
                              !.ecol = IF ln.name = "edge_color" THEN [e \in Edges(s) |-> NONE4] ELSE @]
    [] ln.op = "new_vp" -> [s EXCEPT !.vp = PutAll(@, s.nodes, ln.name, "None"),
                              !.vcol = IF ln.name = "vertex_fill_color" THEN [x \in s.nodes |-> "0"] ELSE @]
    [] ln.op = "set_pos" -> LET RECURSIVE ps(_, _)
                                ps(P, as) == IF as = <<>> THEN P
                                             ELSE ps(Put(P, Head(as).x, "pos", Head(as).v), Tail(as))
                            IN [s EXCEPT !.vp = ps(@, ln.pos)]
    [] OTHER -> s

See(s, o) == <<
  <<{<<e, s.idx[e]>> : e \in Edges(s)} = {<<o.idx[i].e, o.idx[i].i>> : i \in DOMAIN o.idx}, "edge-index">>,
  <<Len(o.idx) = Cardinality(Edges(s)), "edge-index">>,
  <<Range(o.edges) = Edges(s) /\ Len(o.edges) = Cardinality(Edges(s)), "edges">>,
  <<Range(o.isedge) = Edges(s), "is-edge">>,
  <<\A i \in DOMAIN o.ep : o.ep[i].v = Get(s.ep, o.ep[i].e, o.ep[i].name), "edge-property">>,
  <<\A i \in DOMAIN o.vp : o.vp[i].v = Get(s.vp, o.vp[i].x, o.vp[i].name), "vertex-property">>,
  <<Range(o.epn) = {p.name : p \in s.ep}, "edge-property-names">>,
  <<Range(o.vpn) = {p.name : p \in s.vp}, "vertex-property-names">>,
  <<\A i \in DOMAIN o.ty : /\ Range(o.ty[i].es) = {e \in Edges(s) : Get(s.ep, e, "edge_type") = o.ty[i].y}
                           /\ Len(o.ty[i].es) = Cardinality(Range(o.ty[i].es)), "edges-of-type">>,
  <<\A i \in DOMAIN o.nb : /\ Range(o.nb[i].vs) = {e[2] : e \in {f \in Edges(s) : f[1] = o.nb[i].x}}
                           /\ Len(o.nb[i].vs) = Cardinality(Range(o.nb[i].vs)), "out-neighbours">>,
  <<DOMAIN s.ecol # {} => \A e \in DOMAIN s.ecol : o.ecol[s.idx[e] + 1] = s.ecol[e], "edge-colors">>,
  <<DOMAIN s.vcol # {} => \A x \in DOMAIN s.vcol : o.vcol[x] = s.vcol[x], "vertex-colors">>,
  <<o.haspos => \A x \in s.nodes : o.pos[x] = Get(s.vp, x, "pos"), "positions">> >>

DApply(s, ln) == LET s1 == Do(s, ln) IN Verify(s1, See(s1, ln.o))
\* index invariant of the specification itself
IndexOK(s) == \A e, f \in Edges(s) : (s.idx[e] = s.idx[f] => e = f) /\ s.idx[e] < Cardinality(Edges(s))
=============================================================================
