------------------------------ MODULE Convert -------------------------------
(***************************************************************************)
(* Conversions between graphs and adjacencies, and edge lengths.  A graph  *)
(* is its vertices 1..n, its edges and the properties of every edge; every *)
(* line is one conversion with its argument and whole result.              *)
(*   todict   graph2dict, with (dd) or without the edge properties         *)
(*   back     the adjacency of a graph turned into a graph again           *)
(*   lengths  add_edge_lengths: len[i] and the angle ang[i] between the    *)
(*            positions of the ends (millionths of a radian) of edge i     *)
(***************************************************************************)
EXTENDS OpTrace

CStart(cfg) == 0

Pairs(es) == {es[i].e : i \in DOMAIN es}
Directed(ln) ==   \* the edges of the graph that is meant
  IF ln.directed THEN Range(ln.edges)
  ELSE Range(ln.edges) \cup {[e |-> <<x.e[2], x.e[1]>>, p |-> x.p] : x \in Range(ln.edges)}

ToDict(ln) ==
  LET out == Range(ln.out)
      want == IF ln.dd THEN Directed(ln) ELSE {[e |-> x.e, p |-> <<>>] : x \in Directed(ln)}
  IN << <<ln.nodes = [i \in 1..ln.n |-> i], "vertices">>,
        <<Pairs(ln.out) = {x.e : x \in want}, "neighbours">>,
        <<Len(ln.out) = Cardinality(Pairs(ln.out)), "neighbours">>,
        <<out = want, "edge-properties">>,
        <<ln.before = ln.after, "argument-changed">> >>

\* no vertex without out-edges: there is nothing to adjust
Back(ln) ==
  << <<ln.nodes = [i \in 1..ln.n |-> i], "vertices">>,
     <<Pairs(ln.out) = Pairs(ln.edges), "edges">>,
     <<Range(ln.out) = (IF ln.dd THEN Range(ln.edges) ELSE {[e |-> x.e, p |-> <<1>>] : x \in Range(ln.edges)}),
       "edge-types">>,
     <<ln.before = ln.after, "argument-changed">> >>

Lengths(ln) ==
  LET I == DOMAIN ln.edges IN
  << <<[i \in I |-> ln.edges[i].e] = [i \in DOMAIN ln.out |-> ln.out[i].e], "edges">>,
     <<\A i \in I : ln.len[i] >= 0, "length-negative">>,
     <<\A i \in I : ln.same[i] => ln.len[i] = 0, "length-of-nothing">>,
     <<\A i, j \in I : ln.edges[i].e = <<ln.edges[j].e[2], ln.edges[j].e[1]>> => ln.len[i] = ln.len[j],
       "length-asymmetric">>,
     <<\A i, j \in I : ln.ang[i] + 20 < ln.ang[j] => ln.len[i] < ln.len[j], "length-order">>,
     <<ln.before = ln.after, "argument-changed">> >>

CApply(s, ln) ==
  IF ln.err # "" THEN Verify(s, << <<FALSE, "raised-" \o ln.err>> >>)
  ELSE CASE ln.op = "todict" -> Verify(s, ToDict(ln))
         [] ln.op = "back" -> Verify(s, Back(ln))
         [] ln.op = "lengths" -> Verify(s, Lengths(ln))
=============================================================================
