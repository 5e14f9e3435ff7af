---------------------------- MODULE MCUnionFind ----------------------------
(***************************************************************************)
(* Leader pointers with ranks and path compression refine the partition:   *)
(* exhaustive over all operation sequences up to the bounds.  Prints every *)
(* sequence (Gen) for replay on the real structure.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, LEN, Emitting
VARIABLES leader, rank, size, ncl, part, ops
vars == <<leader, rank, size, ncl, part, ops>>
Elem == 1..N
RECURSIVE Root(_, _)
Root(l, a) == IF l[a] = a THEN a ELSE Root(l, l[a])
RECURSIVE Path(_, _)
Path(l, a) == IF l[a] = a THEN {} ELSE {a} \cup Path(l, l[a])
Compress(l, a) == LET r == Root(l, a) IN [i \in Elem |-> IF i \in Path(l, a) THEN r ELSE l[i]]
Init == /\ leader = [i \in Elem |-> i] /\ rank = [i \in Elem |-> 0] /\ size = [i \in Elem |-> 1]
        /\ ncl = N /\ part = [i \in Elem |-> {i}] /\ ops = <<>>
Find(a) == /\ leader' = Compress(leader, a) /\ ops' = Append(ops, <<a>>)
           /\ UNCHANGED <<rank, size, ncl, part>>
Union(a, b) ==
  LET l == Compress(Compress(leader, a), b)
      x == Root(l, a)
      y == Root(l, b)
      hi == IF rank[y] > rank[x] THEN y ELSE x
      lo == IF rank[y] > rank[x] THEN x ELSE y
  IN /\ ops' = Append(ops, <<a, b>>)
     /\ part' = [i \in Elem |-> IF i \in part[a] \cup part[b] THEN part[a] \cup part[b] ELSE part[i]]
     /\ IF x = y THEN leader' = l /\ UNCHANGED <<rank, size, ncl>>
        ELSE /\ leader' = [l EXCEPT ![lo] = hi]
             /\ rank' = IF rank[x] = rank[y] THEN [rank EXCEPT ![hi] = @ + 1] ELSE rank
             /\ size' = [size EXCEPT ![hi] = @ + size[lo]]
             /\ ncl' = ncl - 1
Next == Len(ops) < LEN /\ ((\E a \in Elem : Find(a)) \/ (\E a, b \in Elem : Union(a, b)))
Spec == Init /\ [][Next]_vars
Refines ==
  /\ \A i, j \in Elem : (Root(leader, i) = Root(leader, j)) <=> (j \in part[i])
  /\ \A i \in Elem : Root(leader, i) \in part[i] /\ size[Root(leader, i)] = Cardinality(part[i])
  /\ ncl = Cardinality({part[i] : i \in Elem})
RankOK == \A i \in Elem : leader[i] # i => rank[leader[i]] > rank[i]
LogRank == \A i \in Elem : leader[i] = i => Cardinality(part[i]) >= 2 ^ rank[i]
FindKeeps == [][(\E a \in Elem : ops' = Append(ops, <<a>>)) =>
                \A i \in Elem : Root(leader', i) = Root(leader, i)]_vars
Gen == (Emitting /\ Len(ops) = LEN) => PrintT(<<"GEN", ToJson(ops)>>)
View == <<leader, rank, size, ncl, part, Len(ops)>>
=============================================================================
