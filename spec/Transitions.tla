----------------------------- MODULE Transitions -----------------------------
(***************************************************************************)
(* Routing probabilities of a network: set from a dict or a matrix, all or *)
(* nothing; queried as a dict and as a matrix; and obeyed by the default   *)
(* destination choice.                                                     *)
(* A probability is a record [r, u, s]: r its exact decimal text, u its    *)
(* value in millionths (rounded), s its sign (-1, 0 or 1).                 *)
(* State: out[v] the targets of v in edge order, p[v] their probabilities  *)
(* (records), seen whether p holds exact texts already.                    *)
(***************************************************************************)
EXTENDS OpTrace

ONE == 1000000
TStart(cfg) ==
  [n |-> cfg.n, out |-> cfg.out, eidx |-> cfg.eidx,
   p |-> [v \in 1..cfg.n |->
           [j \in 1..Len(cfg.out[v]) |-> [r |-> cfg.inv[Len(cfg.out[v])], s |-> 1,
                                          u |-> cfg.invu[Len(cfg.out[v])]]]]]

Zero == [r |-> "0.0", u |-> 0, s |-> 0]
Norm(x) == IF x.s = 0 THEN Zero ELSE x
SumU(sq) == SumOf([i \in DOMAIN sq |-> sq[i].u], DOMAIN sq)
NearOne(u) == Abs(u - ONE) <= 12
FarFromOne(u) == Abs(u - ONE) > 12
NonNeg(sq) == \A i \in DOMAIN sq : sq[i].s >= 0

\* row: sequence of [t, p] (targets need not be targets of edges)
Given(row, t) == LET m == {i \in DOMAIN row : row[i].t = t}
                 IN IF m = {} THEN Zero ELSE Norm(row[CHOOSE i \in m : TRUE].p)
NewRow(s, v, row) == [j \in DOMAIN s.out[v] |-> Given(row, s.out[v][j])]
RowOK(s, v, row) ==
  /\ \A i \in DOMAIN row : row[i].p.s >= 0
  /\ NearOne(SumU(NewRow(s, v, row)))
  /\ NearOne(SumU([i \in DOMAIN row |-> row[i].p]))

\* ln.rows: sequence of [v, row]; v = 0 stands for something that is not a vertex
DictOK(s, rows) ==
  \A i \in DOMAIN rows : rows[i].v \in 1..s.n
                          /\ (s.out[rows[i].v] # <<>> => RowOK(s, rows[i].v, rows[i].row))
SetDict(s, rows) ==
  [s EXCEPT !.p = [v \in 1..s.n |->
     LET m == {i \in DOMAIN rows : rows[i].v = v}
     IN IF m = {} THEN s.p[v] ELSE NewRow(s, v, rows[CHOOSE i \in m : TRUE].row)]]

Want(s, ln) ==      \* "" or the error
  CASE ln.kind = "other" -> "TypeError"
    [] ln.kind = "dict"  -> IF DictOK(s, ln.rows) THEN "" ELSE "ValueError"
    [] ln.kind = "shape" -> "ValueError"
    [] ln.kind = "matrix" ->
         IF Len(ln.rows) = s.n /\ DictOK(s, ln.rows) THEN "" ELSE "ValueError"

\* Observed: td[v] sequence of [t, r] sorted by target, tm[v] the matrix row of texts
DictSeen(s, ln) == \A v \in 1..s.n :
  ln.td[v] = [j \in DOMAIN s.out[v] |-> [t |-> s.out[v][j], r |-> s.p[v][j].r]]
MatSeen(s, ln) == \A v \in 1..s.n : \A t \in 1..s.n :
  ln.tm[v][t] = IF \E j \in DOMAIN s.out[v] : s.out[v][j] = t
                THEN s.p[v][CHOOSE j \in DOMAIN s.out[v] : s.out[v][j] = t].r ELSE "0.0"
Seen(s, ln) == << <<DictSeen(s, ln), "transitions-dict">>, <<MatSeen(s, ln), "transitions-matrix">> >>

\* n default choices made at the head of an edge leading to v; cnt[j] went to out[v][j]
ChoiceOK(s, ln) ==
  LET v == ln.v
      n == SumOf(ln.cnt, DOMAIN ln.cnt)
  IN << <<ln.off = 0, "destination-not-an-out-edge">>,
        <<\A j \in DOMAIN s.out[v] : s.p[v][j].s = 0 => ln.cnt[j] = 0, "zero-probability-edge-taken">>,
        <<\A j \in DOMAIN s.out[v] : s.p[v][j].s = 0 \/
             Plausible(ln.cnt[j], n, (s.p[v][j].u * 64 + 500000) \div ONE, 64), "frequency">>,
        \* two successive choices are independent: pairs[i][j] counts (i then j)
        <<\A i, j \in DOMAIN s.out[v] :
             LET ni == SumOf(ln.pairs[i], DOMAIN ln.pairs[i])
             IN ni < 200 \/ s.p[v][j].s = 0 \/
                Plausible(ln.pairs[i][j], ni, (s.p[v][j].u * 64 + 500000) \div ONE, 64),
          "choices-not-independent">> >>

TApply(s, ln) ==
  CASE ln.op = "set" ->
         LET want == Want(s, ln)
             s1 == IF want = "" THEN SetDict(s, ln.rows) ELSE s
         IN Verify(s1, << <<ln.err = want, IF want = "" THEN "rejected" ELSE "accepted">> >> \o Seen(s1, ln))
    [] ln.op = "look" -> Verify(s, Seen(s, ln))
    [] ln.op = "choose" -> Verify(s, ChoiceOK(s, ln))
    \* choices for the extreme values a draw can take
    [] ln.op = "extreme" -> Verify(s, <<
         <<ln.off = 0, "destination-not-an-out-edge">>,
         <<\A j \in DOMAIN s.out[ln.v] : s.p[ln.v][j].s = 0 => ln.cnt[j] = 0, "zero-probability-edge-taken">> >>)
    \* which queue an out-edge index stands for
    [] ln.op = "edges" -> Verify(s, << <<ln.oe = s.eidx, "out-edges">> >>)
=============================================================================
