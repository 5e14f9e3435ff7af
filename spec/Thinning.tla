------------------------------ MODULE Thinning ------------------------------
(***************************************************************************)
(* Thinning: from t, candidates at exponential gaps of the maximal rate;   *)
(* a candidate is accepted with probability rate / max.                    *)
(*  call  one call: t, candidates cand[i] = [t, j] where the rate was      *)
(*        evaluated (j sixteenths of the maximum), ret; times are ranks    *)
(*        within the call, so only their order matters                     *)
(*  acc   over many calls: n candidates of rate j, acc of them accepted    *)
(*  bins  over many calls: gaps of one group by sixteen equiprobable bins  *)
(***************************************************************************)
EXTENDS OpTrace
HStart(cfg) == [calls |-> 0]

HApply(s, ln) ==
  CASE ln.op = "call" ->
      LET n == Len(ln.cand)
      IN Verify([calls |-> s.calls + 1], <<
        <<n >= 1, "rate-never-evaluated">>,
        <<n >= 1 => ln.ret = ln.cand[n].t, "returned-not-last-candidate">>,
        <<ln.ret > ln.t, "not-after-the-given-time">>,
        <<\A i \in 1..n : ln.cand[i].t > (IF i = 1 THEN ln.t ELSE ln.cand[i - 1].t), "candidates-not-increasing">>,
        <<n >= 1 => ln.cand[n].j # 0, "zero-rate-accepted">>,
        <<\A i \in 1..(n - 1) : ln.cand[i].j # 16, "maximal-rate-rejected">> >>)
    [] ln.op = "acc" -> Verify(s, << <<Plausible(ln.acc, ln.n, ln.j, 16), "acceptance-frequency">> >>)
    [] ln.op = "bins" ->
         LET n == SumOf(ln.cnt, DOMAIN ln.cnt)
         IN Verify(s, << <<\A b \in DOMAIN ln.cnt : Plausible(ln.cnt[b], n, 1, 16), "gap-distribution">> >>)
=============================================================================
