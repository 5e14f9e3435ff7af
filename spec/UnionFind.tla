------------------------------ MODULE UnionFind ------------------------------
(***************************************************************************)
(* Union-find: the partition generated by the unions so far.               *)
(* State: part[i] is the class of element i (a set); lead the leaders as   *)
(* last observed (<<>> when a union happened since).                       *)
(***************************************************************************)
EXTENDS OpTrace

UStart(cfg) == [part |-> [i \in 1..cfg.n |-> {i}], lead |-> <<>>]
Classes(p) == {p[i] : i \in DOMAIN p}
Join(p, a, b) == LET c == p[a] \cup p[b] IN [i \in DOMAIN p |-> IF i \in c THEN c ELSE p[i]]

\* what may be observed at any time (on a copy of the structure)
Seen(s, ln) == <<
  <<ln.ncl = Cardinality(Classes(s.part)), "cluster-count">>,
  <<\A i, j \in DOMAIN s.part : (ln.lead[i] = ln.lead[j]) <=> (j \in s.part[i]), "leader-partition">>,
  <<\A i \in DOMAIN s.part : ln.lead[i] \in s.part[i], "leader-not-member">>,
  <<\A i \in DOMAIN s.part : ln.size[i] = Cardinality(s.part[i]), "size">>,
  <<s.lead # <<>> => s.lead = ln.lead, "leader-changed">> >>

UApply(s0, ln) ==
  LET s == IF ln.op = "union" /\ ln.b \notin s0.part[ln.a]
           THEN [part |-> Join(s0.part, ln.a, ln.b), lead |-> <<>>] ELSE s0
      ret == CASE ln.op = "find" -> ln.ret \in s.part[ln.a] /\ (ln.seen => ln.ret = ln.lead[ln.a])
                                     /\ (s.lead # <<>> => ln.ret = s.lead[ln.a])
               [] ln.op = "size" -> ln.ret = Cardinality(s.part[ln.a])
               [] OTHER -> TRUE
  IN IF ln.seen THEN Verify([s EXCEPT !.lead = ln.lead], Append(Seen(s, ln), <<ret, ln.op>>))
     ELSE Verify(s, << <<ret, ln.op>>, <<ln.ncl = Cardinality(Classes(s.part)), "cluster-count">> >>)
=============================================================================
