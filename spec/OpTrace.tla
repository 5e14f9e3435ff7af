------------------------------- MODULE OpTrace -------------------------------
(***************************************************************************)
(* Validation of recorded operations against a specification given as      *)
(*   Start(cfg)        the initial state of the object                     *)
(*   Apply(state, ln)  [st |-> next state, bad |-> set of failed clauses]  *)
(* where ln is one recorded operation with its arguments and all results.  *)
(* Every trace gets a verdict: END, or BAD with the clauses that failed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Apply(_, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>

INF == 1000000000
Range(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Abs(x) == IF x < 0 THEN -x ELSE x
\* clauses from a sequence of <<condition, name>>: the names whose condition fails
Failed(cs) == {cs[i][2] : i \in {j \in DOMAIN cs : ~cs[j][1]}}
Verify(s, cs) == [st |-> s, bad |-> Failed(cs)]

\* largest r with r*r <= n
RECURSIVE Newton(_, _)
Newton(n, r) == LET q == (r + n \div r) \div 2 IN IF q >= r THEN r ELSE Newton(n, q)
Isqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, n)
\* cnt of n independent trials of probability p/d: within 7 standard deviations
Plausible(cnt, n, p, d) ==
  IF p <= 0 THEN cnt = 0 ELSE IF p >= d THEN cnt = n
  ELSE Abs(cnt * d - n * p) <= 7 * Isqrt(n * p * (d - p)) + 8 * d

OInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ st = Start(Traces[tid].cfg)
         /\ bad = {}
OStep == /\ bad = {} /\ l <= Len(Traces[tid].lines)
         /\ LET r == Apply(st, Traces[tid].lines[l])
            IN /\ bad' = r.bad
               /\ IF r.bad = {} THEN st' = r.st /\ l' = l + 1 ELSE UNCHANGED <<st, l>>
         /\ UNCHANGED tid
OSpec == OInit /\ [][OStep]_vars
OVerdict ==
  /\ (bad # {} => PrintT(<<"BAD", Traces[tid].id, l, ToJson(bad), ToJson(st)>>))
  /\ ((bad = {} /\ l = Len(Traces[tid].lines) + 1) => PrintT(<<"END", Traces[tid].id, l - 1>>))
=============================================================================
