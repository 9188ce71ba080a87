------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* Interpolating spline of degree k through points xs (increasing), values *)
(* ys: the knots are the points except those near the ends ("not a knot")  *)
(* for odd k, and the midpoints likewise for even k.  Outside the points   *)
(* the end pieces are continued.                                           *)
(***************************************************************************)
EXTENDS CNum, SequencesExt, TLC

Knots(xs, k) ==
  LET n == Len(xs)
      rep(x) == [i \in 1..(k + 1) |-> x]
      h == IF k % 2 = 1 THEN (k + 1) \div 2 ELSE k \div 2
      mid == [i \in 1..(n - 1) |-> CHalf(CAdd(xs[i], xs[i + 1]))]
      in == IF k % 2 = 1 THEN SubSeq(xs, h + 1, n - h) ELSE SubSeq(mid, h + 1, n - 1 - h)
  IN rep(xs[1]) \o in \o rep(xs[n])

\* the piece x belongs to: the last one whose start is not beyond x, of those with an extent
Piece(t, k, n, x) ==
  LET S == {i \in (k + 1)..n : CLt(t[i], t[i + 1])}
      B == {i \in S : CLe(t[i], x)}
  IN IF B = {} THEN CHOOSE i \in S : \A j \in S : i <= j
     ELSE CHOOSE i \in B : \A j \in B : j <= i

\* values of the n basis splines of degree k at x, by the recursion of de Boor and Cox
Basis(t, k, n, x) ==
  LET p == Piece(t, k, n, x)
      m == Len(t) - 1
      b0 == [i \in 1..m |-> IF i = p THEN C1 ELSE C0]
      q(a, b) == IF CEq(b, C0) THEN C0 ELSE CDiv(a, b)
      up(b, d) == TLCEval([i \in 1..(m - d) |->
                    CAdd(IF CEq(b[i], C0) THEN C0 ELSE CMul(q(CSub(x, t[i]), CSub(t[i + d], t[i])), b[i]),
                         IF CEq(b[i + 1], C0) THEN C0
                         ELSE CMul(q(CSub(t[i + d + 1], x), CSub(t[i + d + 1], t[i + 1])), b[i + 1]))])
  IN FoldLeft(LAMBDA b, d : up(b, d), TLCEval(b0), [d \in 1..k |-> d])

\* ys: one row of values per point; the row of values at x
SplineAt(xs, ys, k, x) ==
  LET n == Len(xs)
      \* measured from the first point in units of the span
      u(z) == CDiv(CSub(z, xs[1]), CSub(xs[n], xs[1]))
      us == TLCEval([i \in 1..n |-> u(xs[i])])
      t == TLCEval(Knots(us, k))
  IN IF n = 1 THEN ys[1]
     ELSE LET A == TLCEval([i \in 1..n |-> Basis(t, k, n, us[i])])
              c == CMSolve(A, ys)
          IN CMMul(<<Basis(t, k, n, u(x))>>, c)[1]
=============================================================================
