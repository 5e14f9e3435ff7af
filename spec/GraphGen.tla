------------------------------ MODULE GraphGen ------------------------------
(***************************************************************************)
(* The random graph generators.  Every line is one call with its whole     *)
(* observed result; vertices are 1..n, edges <<u, v>>.                     *)
(*   minimal  rank[u][v]: position of the pair in the order of distances   *)
(*   random   generate_random_graph, loops with probability p of 0, 32/64  *)
(*            or 64/64                                                     *)
(*   types    set_types_random on a given graph                            *)
(*   ranktypes  set_types_rank                                             *)
(*   matrix   generate_transition_matrix                                   *)
(*   freq     counts of a type over many independent typings               *)
(*   same     the texts of two results with equal seeds                    *)
(***************************************************************************)
EXTENDS OpTrace

GStart(cfg) == 0

Up(n, rank, r) == {<<u, v>> \in (1..n) \X (1..n) : u # v /\ rank[u][v] <= r}
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {e[2] : e \in {f \in E : f[1] \in S}}
               IN IF T = S THEN S ELSE Reach(E, T)
Connected(n, E) == n = 0 \/ Reach(E, {1}) = 1..n
\* the pairs up to and including the first that connects everything
Minimal(n, rank) ==
  IF n <= 1 THEN {}
  ELSE LET rs == {rank[u][v] : u, v \in 1..n} \ {0}
           ok == {r \in rs : Connected(n, Up(n, rank, r))}
       IN Up(n, rank, MinOf(ok))
Symmetric(E) == \A e \in E : <<e[2], e[1]>> \in E
Loops(E) == {e \in E : e[1] = e[2]}
Straight(E) == {e \in E : e[1] # e[2]}
NoDup(s) == Len(s) = Cardinality(Range(s))
Types(o) == {<<o.types[i].e, o.types[i].ty>> : i \in DOMAIN o.types}

Graph(ln) == <<
  <<Range(ln.o.nodes) = 1..ln.n /\ Len(ln.o.nodes) = ln.n, "vertices">>,
  <<NoDup(ln.o.edges), "edges">> >>
MinimalOK(ln, E) == <<
  <<ln.o.npos = ln.n, "positions">>,
  <<Symmetric(E), "symmetric">>,
  <<Connected(ln.n, E), "connected">>,
  <<E = Minimal(ln.n, ln.rank), "closest-pairs">> >>
TypesOK(ln, E) == <<
  <<{t[1] : t \in Types(ln.o)} = E /\ Cardinality(Types(ln.o)) = Cardinality(E), "every-edge-typed">>,
  <<\A t \in Types(ln.o) : t[2] \in (IF t[1][1] = t[1][2] THEN Range(ln.lprops) ELSE Range(ln.props)),
    "type-of-no-proportion">> >>

Above(rank, thr) == {v \in DOMAIN rank : rank[v] > thr}
AtLeast(rank, thr) == {v \in DOMAIN rank : rank[v] >= thr}
\* value of the k-th largest rank
Kth(rank, k) == CHOOSE x \in Range(rank) : Cardinality(Above(rank, x)) < k /\ Cardinality(AtLeast(rank, x)) >= k

RankOK(ln, E) ==
  LET T == Types(ln.o)
      L(y) == {t[1][1] : t \in {x \in T : x[1][1] = x[1][2] /\ x[2] = y}}
      thr == Kth(ln.rnk, ln.k2)
  IN << <<{t[1] : t \in T} = E /\ Cardinality(T) = Cardinality(E), "every-edge-typed">>,
        <<Straight(E) = Straight(Range(ln.before)), "edges">>,
        <<Loops(Range(ln.before)) \subseteq Loops(E), "edges">>,
        <<Above(ln.rnk, thr + ln.eps) \subseteq L(3) /\ L(3) \subseteq AtLeast(ln.rnk, thr - ln.eps)
           /\ Cardinality(L(3)) >= ln.k2, "top-ranked-type-3">>,
        <<Cardinality(L(2)) <= ln.k3 /\ L(2) \cap AtLeast(ln.rnk, thr + ln.eps + 1) = {}, "chosen-type-2">>,
        <<(ln.k3 >= 1 /\ ln.near /\ Cardinality(L(3)) < ln.n) => L(2) # {}, "chosen-type-2">>,
        \* loops that were there before and were not chosen are ordinary edges
        <<\A e \in Loops(E) : (e[1] \in L(2) \cup L(3)) \/ e \in Range(ln.before), "extra-loop">>,
        <<\A t \in T : t[2] \in {1, 2, 3} /\ (t[1][1] # t[1][2] => t[2] = 1), "other-edges-type-1">> >>

MatrixOK(ln, E) == <<
  <<\A i \in 1..ln.n, j \in 1..ln.n :
       IF <<i, j>> \in E THEN ln.sg[i][j] = 1 ELSE ln.sg[i][j] = 0, "mass-exactly-on-edges">>,
  <<\A i \in 1..ln.n : (\E j \in 1..ln.n : <<i, j>> \in E) => Abs(ln.dev[i]) <= 1, "rows-sum-to-one">>,
  <<Len(ln.sg) = ln.n /\ \A i \in 1..ln.n : Len(ln.sg[i]) = ln.n, "shape">> >>

GApply(s, ln) ==
  IF ln.err # "" THEN Verify(s, << <<ln.err = ln.want, "raised">> >>)
  ELSE IF ln.want # "" THEN Verify(s, << <<FALSE, "accepted">> >>)
  ELSE LET E == IF ln.op \in {"freq", "same"} THEN {} ELSE Range(ln.o.edges) IN
  CASE ln.op = "minimal" -> Verify(s, Graph(ln) \o MinimalOK(ln, E))
    [] ln.op = "random" ->
         Verify(s, Graph(ln) \o TypesOK(ln, E) \o <<
           <<Straight(E) = Minimal(ln.n, ln.rank), "closest-pairs">>,
           <<ln.ploop = 0 => Loops(E) = {}, "loops">>,
           <<ln.ploop = 64 => Cardinality(Loops(E)) = ln.n, "loops">>,
           <<ln.o.npos = ln.n, "positions">> >>)
    [] ln.op = "types" -> Verify(s, Graph(ln) \o TypesOK(ln, E) \o << <<E = Range(ln.before), "edges">> >>)
    [] ln.op = "ranktypes" -> Verify(s, Graph(ln) \o RankOK(ln, E))
    [] ln.op = "matrix" -> Verify(s, MatrixOK(ln, E))
    [] ln.op = "freq" -> Verify(s, << <<Plausible(ln.cnt, ln.m, ln.p, 64), "frequency-" \o ln.what>> >>)
    [] ln.op = "same" -> Verify(s, << <<ln.a = ln.b, "equal-seeds-differ">> >>)
=============================================================================
