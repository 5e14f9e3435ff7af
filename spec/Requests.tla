------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Which requests are accepted and which error the others raise.           *)
(*  servers  cls, v: "int" with n, "inf" or "other"; via: "new" or "set"   *)
(*  graph    what: how the graph was described                             *)
(*  blocking text: the mode asked for, or kind = "other"                   *)
(*  props    sums in sixty-fourths of the proportions                      *)
(*  sim      simulate or animate before initialize                         *)
(* err the error raised ("" if none), same: the object (if there is one)   *)
(* is exactly what it was before, got: the resulting value.                *)
(***************************************************************************)
EXTENDS OpTrace
QStart(cfg) == 0

Servers(ln) == IF ln.v = "other" THEN "TypeError"
               ELSE IF ln.v = "int" /\ ln.n <= 0 THEN "ValueError" ELSE ""
Good == {"digraph", "graph", "dict-of-dicts", "dict-of-lists", "matrix", "queue-graph"}
WantOf(ln) ==
  CASE ln.op = "servers" -> Servers(ln)
    [] ln.op = "graph" -> IF ln.what \in Good THEN "" ELSE "TypeError"
    [] ln.op = "blocking" -> IF ln.kind = "text" THEN "" ELSE "TypeError"
    [] ln.op = "props" -> IF ln.sum = 64 /\ ln.lsum = 64 THEN "" ELSE "ValueError"
    [] ln.op = "sim" -> "QueueingToolError"
Repetitive == {"rs", "Rs", "rS", "RS"}
GotOf(ln) ==
  CASE ln.op = "servers" -> IF ln.v = "inf" THEN "inf" ELSE ToString(ln.n)
    [] ln.op = "blocking" -> IF ln.text \in Repetitive THEN "RS" ELSE "BAS"
    [] OTHER -> ln.got
QApply(s, ln) ==
  LET want == WantOf(ln) IN
  Verify(s, <<
    <<want # "" => ln.err # "", "accepted-" \o ln.op>>,
    <<want = "" => ln.err = "", "rejected-" \o ln.op>>,
    <<(want # "" /\ ln.err # "") => ln.err = want, "wrong-error-" \o ln.op>>,
    <<ln.err # "" => ln.same, "changed-by-rejected-" \o ln.op>>,
    <<(want = "" /\ ln.err = "") => ln.got = GotOf(ln), "result-" \o ln.op>> >>)
=============================================================================
