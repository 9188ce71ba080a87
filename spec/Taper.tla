------------------------------- MODULE Taper -------------------------------
(***************************************************************************)
(* Transmission lines whose parameters vary along their length.            *)
(*                                                                         *)
(* A parameter is <<form, data>>:                                          *)
(*   "c"  constant: text                                                   *)
(*   "l"  values at equally spaced places from 0 to the length L           *)
(*   "t"  <<places, values>>: linear in between, the nearest value outside *)
(*   "x"  <<a, b>>: a + b x            "w"  k: k times angular frequency   *)
(*                                                                         *)
(* Between neighbouring break points everything is linear in x (the shunt  *)
(* admittance is a ratio of linear functions when the line is given by its *)
(* characteristic impedance), so voltage and current are sums of power     *)
(* series  D1 V' = N1 I,  D2 I' = N2 V.                                    *)
(* Direction: V' = z I, I' = y V (I flows towards smaller x).              *)
(***************************************************************************)
EXTENDS Elements, TLC, SequencesExt

\* places of the nodes of a parameter
NodesOf(q, L) ==
  CASE q[1] = "l" -> LET n == Len(q[2]) IN [k \in 1..n |-> CDiv(CMul(CInt(k - 1), L), CInt(n - 1))]
    [] q[1] = "t" -> [k \in 1..Len(q[2][1]) |-> Num(q[2][1][k])]
    [] OTHER -> <<>>
ValsOf(q) == IF q[1] = "l" THEN [k \in 1..Len(q[2]) |-> Num(q[2][k])]
             ELSE [k \in 1..Len(q[2][2]) |-> Num(q[2][2][k])]
\* <<value, slope>> at place x (to the right of it), angular frequency w
At(q, x, L, w) ==
  CASE q[1] = "c" -> <<Num(q[2]), C0>>
    [] q[1] = "x" -> <<CAdd(Num(q[2][1]), CMul(Num(q[2][2]), x)), Num(q[2][2])>>
    [] q[1] = "w" -> <<CMul(Num(q[2]), w), C0>>
    [] OTHER ->
       LET xs == NodesOf(q, L)
           vs == ValsOf(q)
           n == Len(xs)
           i == Cardinality({k \in 1..n : CLe(xs[k], x)})
       IN IF i = 0 THEN <<vs[1], C0>>
          ELSE IF i = n THEN <<vs[n], C0>>
          ELSE LET s == CDiv(CSub(vs[i + 1], vs[i]), CSub(xs[i + 1], xs[i]))
               IN <<CAdd(vs[i], CMul(s, CSub(x, xs[i]))), s>>
\* pars: sequence of <<name, form, data>>
HasP(ps, n) == \E k \in 1..Len(ps) : ps[k][1] = n
ParOf(ps, n) == LET k == CHOOSE k \in 1..Len(ps) : ps[k][1] = n IN <<ps[k][2], ps[k][3]>>
AtP(ps, n, d, x, L, w) == IF HasP(ps, n) THEN At(ParOf(ps, n), x, L, w) ELSE <<d, C0>>

\* <<N1a, N1b, N2a, N2b, D2a, D2b>> on the interval starting at x
Coefs(ps, x, L, f) ==
  LET w == COmega(f)
      jw == CMul(CJ, w)
      r == AtP(ps, "rTL", C0, x, L, w)
      g == AtP(ps, "gTL", C0, x, L, w)
  IN IF HasP(ps, "Z0TL")
     THEN LET vr == AtP(ps, "vr", C1, x, L, w)[1]     \* constant
              cv == CMul(CLight, vr)
              z0 == AtP(ps, "Z0TL", C0, x, L, w)
          IN << CAdd(r[1], CDiv(CMul(jw, z0[1]), cv)), CAdd(r[2], CDiv(CMul(jw, z0[2]), cv)),
                CAdd(CMul(g[1], CMul(z0[1], cv)), jw), CMul(g[1], CMul(z0[2], cv)),   \* g constant
                CMul(z0[1], cv), CMul(z0[2], cv) >>
     ELSE LET l == AtP(ps, "LTL", C0, x, L, w)
              c == AtP(ps, "CTL", C0, x, L, w)
          IN << CAdd(r[1], CMul(jw, l[1])), CAdd(r[2], CMul(jw, l[2])),
                CAdd(g[1], CMul(jw, c[1])), CAdd(g[2], CMul(jw, c[2])), C1, C0 >>

\* one interval of length h: <<V, I>> at its end from <<v0, i0>>
NTerms == 40
Series(k, h, v0, i0) ==
  LET RECURSIVE it(_, _, _, _, _, _, _, _)
      it(n, vn, vm, in, im, hp, sv, si) ==
        \* vn, in: n-th coefficients; vm, im: (n-1)-th; hp = h^n; sums so far
        LET n1 == CInt(n + 1)
            v1 == CDiv(CAdd(CMul(k[1], in), CMul(k[2], im)), n1)
            i1 == CDiv(CSub(CAdd(CMul(k[3], vn), CMul(k[4], vm)), CMul(CMul(k[6], CInt(n)), in)), CMul(k[5], n1))
            h1 == CMul(hp, h)
            dv == CMul(v1, h1)
            di == CMul(i1, h1)
        IN IF n >= NTerms THEN <<sv, si>>
           ELSE it(n + 1, v1, vn, i1, in, h1, CAdd(sv, dv), CAdd(si, di))
  IN it(0, v0, C0, i0, C0, C1, v0, i0)

\* the series in I converges within the distance to the zero of D2: halve the
\* interval until well inside
Shift(k, h) == <<CAdd(k[1], CMul(k[2], h)), k[2], CAdd(k[3], CMul(k[4], h)), k[4], CAdd(k[5], CMul(k[6], h)), k[6]>>
RECURSIVE Advance(_, _, _, _)
Advance(k, h, v0, i0) ==
  IF CLe(CAbs(CMul(k[6], h)), CMul(CStr("0.35"), CAbs(k[5]))) THEN Series(k, h, v0, i0)
  ELSE LET h2 == CHalf(h)
           m == TLCEval(Advance(k, h2, v0, i0))
       IN Advance(TLCEval(Shift(k, h2)), h2, m[1], m[2])

\* all break points in [0, L]: nodes of all parameters, the wanted places, and
\* enough others that the series converge fast
LeAll(a, b) == CLt(a, b)
Breaks(ps, L, wanted) ==
  LET nodes == UNION {LET xs == NodesOf(<<ps[k][2], ps[k][3]>>, L) IN {xs[i] : i \in 1..Len(xs)} : k \in 1..Len(ps)}
      inside == {x \in nodes : CLt(C0, x) /\ CLt(x, L)}
      extra == {CDiv(CMul(CInt(k), L), CInt(8)) : k \in 0..8}
      all == inside \cup extra \cup {x \in wanted : CLe(C0, x) /\ CLe(x, L)}
  IN SetToSortSeq(all, LeAll)

\* the values at every break point, from <<v0, i0>> at x = 0
Along(ps, L, f, bs, v0, i0) ==
  LET RECURSIVE go(_, _)
      go(k, acc) == IF k >= Len(bs) THEN acc
                    ELSE go(k + 1, Append(acc, TLCEval(Advance(Coefs(ps, bs[k], L, f), CSub(bs[k + 1], bs[k]),
                                                       acc[k][1], acc[k][2]))))
  IN go(1, << <<v0, i0>> >>)

\* port relation: at L, V2 = a V1 + b J1, J2 = c V1 + d J1 with J1 = -I_port1 and J2 = I_port2
RelTaper(ps, L, f) ==
  LET bs == Breaks(ps, L, {})
      s10 == Along(ps, L, f, bs, C1, C0)
      s01 == Along(ps, L, f, bs, C0, C1)
      a == s10[Len(bs)]
      b == s01[Len(bs)]
  IN << << <<a[1], CInt(-1)>>, <<a[2], C0>> >>,
        << <<CNeg(b[1]), C0>>, <<CNeg(b[2]), CInt(-1)>> >> >>
IsConst(ps) == \A k \in 1..Len(ps) : ps[k][2] \in {"c", "w"}
ZYConst(ps, L, f) == LET k == Coefs(ps, C0, L, f) IN <<k[1], CDiv(k[3], k[5])>>
RelLineP(ps, L, f) ==
  IF CLe(CAbs(L), CStr("1e-300")) THEN RelLine(C1, C1, C0)
  ELSE IF IsConst(ps) THEN LET zy == ZYConst(ps, L, f) IN RelLine(zy[1], zy[2], L)
  ELSE RelTaper(ps, L, f)
\* <<V, I>> at the places xs from those at x = 0; constant lines in closed form
LineAt(ps, L, f, xs, v0, i0) ==
  IF CLe(CAbs(L), CStr("1e-300")) THEN [k \in 1..Len(xs) |-> <<v0, i0>>]
  ELSE IF IsConst(ps)
  THEN LET zy == ZYConst(ps, L, f) IN
       [k \in 1..Len(xs) |-> << LineV(zy[1], zy[2], xs[k], v0, CNeg(i0)), CNeg(LineI(zy[1], zy[2], xs[k], v0, CNeg(i0))) >>]
  ELSE LET bs == Breaks(ps, L, {xs[k] : k \in 1..Len(xs)})
           al == Along(ps, L, f, bs, v0, i0)
           last == Len(bs)
       IN [k \in 1..Len(xs) |-> LET i == Cardinality({j \in 1..last : CLe(bs[j], xs[k])}) IN al[IF i = 0 THEN 1 ELSE i]]
=============================================================================
