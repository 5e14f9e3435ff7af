------------------------------- MODULE Colors -------------------------------
(***************************************************************************)
(* What a drawing shows.  Color components are in millionths.              *)
(*  cfg.edges[k]: [u, v, ty, kind ("Q", "R", "N"), sens, maxs,             *)
(*                 loop, edge, fill, vert, pen] of the queue at index k-1  *)
(*  cfg.net: [fill, vert, high, vact, vina, eact, eina], cfg.nv            *)
(* A line: one drawing operation with the queues' state q (n agents, c     *)
(* servers, act) at that time, what the figure showed (shown.e, .v, .f:    *)
(* colors of edges, vertex borders and vertex bodies, .pos, .seg) and what *)
(* the graph holds afterwards (after.e, .v, .f).                           *)
(***************************************************************************)
EXTENDS OpTrace

CStart(cfg) == cfg
E(s) == DOMAIN s.edges
V(s) == 1..s.nv
LoopAt(s, v) == {k \in E(s) : s.edges[k].u = v /\ s.edges[k].v = v}
TheLoop(s, v) == CHOOSE k \in LoopAt(s, v) : TRUE
IsLoop(e) == e.u = e.v
In(s, v) == {k \in E(s) : s.edges[k].v = v}

WithAlpha(c, a) == [i \in 1..4 |-> IF i = 4 THEN a ELSE c[i]]
\* base * (1 - min(n / div, 1))
Lighter(c, n, div) == [i \in 1..4 |-> IF n >= div THEN 0 ELSE (c[i] * (div - n)) \div div]
\* base * (0.9 - min(n / div, 0.9)) / 0.9
Lighter9(c, n, div) ==
  [i \in 1..4 |-> IF 10 * n >= 9 * div THEN 0 ELSE (((c[i] \div 10) * (9 * div - 10 * n)) \div (9 * div)) * 10]
Shade(e, q, c) ==
  CASE e.kind = "N" -> c
    [] e.kind = "R" -> Lighter9(c, q.c, IF e.maxs <= 1 THEN 5 ELSE 3 * e.maxs)
    [] OTHER -> IF q.c = INF THEN c ELSE Lighter(c, q.n, e.sens * q.c + 1)

EdgeColor(e, q) ==
  IF IsLoop(e) THEN IF e.kind = "R" THEN WithAlpha(Shade(e, q, e.loop), 0) ELSE e.loop
  ELSE IF e.kind = "N" THEN e.edge ELSE WithAlpha(Shade(e, q, e.edge), 500000)
LoadFill(s, q, v) ==
  IF \E k \in In(s, v) : q[k].c = INF THEN WithAlpha(s.net.fill, 1000000)
  ELSE LET ns == SumOf([k \in In(s, v) |-> q[k].n], In(s, v))
           cs == SumOf([k \in In(s, v) |-> q[k].c], In(s, v))
       IN WithAlpha(Lighter(s.net.fill, ns, 2 * cs + 2), 1000000)
FillColor(s, q, v) ==
  IF LoopAt(s, v) = {} THEN LoadFill(s, q, v)
  ELSE LET e == s.edges[TheLoop(s, v)] IN
       IF e.ty = 0 THEN LoadFill(s, q, v)
       ELSE IF e.kind = "N" THEN e.fill
       ELSE WithAlpha(Shade(e, q[TheLoop(s, v)], e.fill), 1000000)
BorderColor(s, v) ==
  IF LoopAt(s, v) = {} THEN s.net.vert
  ELSE LET e == s.edges[TheLoop(s, v)] IN IF e.kind = "R" THEN e.pen ELSE e.vert

\* within rounding
Eq(a, b) == \A i \in 1..4 : Abs(a[i] - b[i]) <= 25
Grey == [i \in 1..4 |-> IF i = 4 THEN 900000 ELSE 0]

Normal(s, q, x) == <<
  <<\A k \in E(s) : Eq(x.e[k], EdgeColor(s.edges[k], q[k])), "edge-color">>,
  <<\A v \in V(s) : Eq(x.f[v], FillColor(s, q, v)), "vertex-fill">>,
  <<\A v \in V(s) : Eq(x.v[v], BorderColor(s, v)), "vertex-border">> >>
Active(s, q, x) == <<
  <<\A k \in E(s) : Eq(x.e[k], IF q[k].act THEN s.net.eact ELSE s.net.eina), "active-edges">>,
  <<\A v \in V(s) : Eq(x.f[v], IF \E k \in In(s, v) : q[k].act THEN s.net.vact ELSE s.net.vina),
    "active-vertices">>,
  <<\A v \in V(s) : Eq(x.v[v], Grey), "active-border">> >>
OfType(s, x, ty) == <<
  <<\A k \in E(s) : Eq(x.e[k], IF s.edges[k].ty = ty THEN s.net.eact ELSE s.net.eina), "type-edges">>,
  <<\A v \in V(s) : Eq(x.f[v], IF \E k \in LoopAt(s, v) : s.edges[k].ty = ty THEN s.net.high ELSE s.net.vina),
    "type-vertices">>,
  <<\A v \in V(s) : Eq(x.v[v], IF \E k \in LoopAt(s, v) : s.edges[k].ty = ty
                                THEN s.edges[TheLoop(s, v)].vert ELSE Grey), "type-border">> >>
Reset(s, x) == <<
  <<\A k \in E(s) : Eq(x.e[k], s.edges[k].edge), "reset-edges">>,
  <<\A v \in V(s) : Eq(x.f[v], s.net.fill), "reset-vertices">> >>
Placed(s, ln) == <<
  <<\A v \in V(s) : ln.shown.pos[v] = ln.pos[v], "vertex-position">>,
  <<\A k \in E(s) : ln.shown.seg[k] = <<ln.pos[s.edges[k].u], ln.pos[s.edges[k].v]>>, "edge-position">> >>

CApply(s, ln) ==
  Verify(s, << <<ln.quiet, "simulation-state-changed">> >> \o
    CASE ln.op = "draw" -> Normal(s, ln.q, ln.shown) \o Normal(s, ln.q, ln.after) \o Placed(s, ln)
      [] ln.op = "animate" -> Normal(s, ln.q, ln.shown) \o Normal(s, ln.q, ln.after) \o Placed(s, ln)
      [] ln.op = "active" -> Active(s, ln.q, ln.shown) \o Normal(s, ln.q, ln.after) \o Placed(s, ln)
      [] ln.op = "type" -> OfType(s, ln.shown, ln.ty) \o Normal(s, ln.q, ln.after) \o Placed(s, ln)
      [] ln.op = "reset" -> Reset(s, ln.after))
=============================================================================
