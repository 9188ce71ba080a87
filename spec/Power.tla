-------------------------------- MODULE Power -------------------------------
(***************************************************************************)
(* Energy clauses on a scattering matrix at a real reference impedance:    *)
(* passive (no direction gains power), lossless (S^H S = 1), reciprocal.   *)
(***************************************************************************)
EXTENDS CNum

\* ||S a||^2 <= ||a||^2 for a few directions, the dominant one among them
Norm2(v) == CSumSeq([i \in 1..Len(v) |-> CRe(CMul(v[i], CConj(v[i])))])
PowerOK(S) ==
  LET n == Len(S)
      G == CMMul(CMConjT(S), S)
      unit(i) == [k \in 1..n |-> IF k = i THEN C1 ELSE C0]
      RECURSIVE it(_, _)
      it(v, k) == IF k = 0 THEN v
                  ELSE LET w == CMVec(G, v)
                           s == CSqrt(Norm2(w))
                       IN IF CLe(s, CStr("1e-30")) THEN v
                          ELSE it([i \in 1..n |-> CDiv(w[i], s)], k - 1)
      dom == it([i \in 1..n |-> CAdd(CRat(1, i), CMul(CJ, CRat(i, 7)))], 12)
      le(v) == CLe(Norm2(CMVec(S, v)), CAdd(Norm2(v), CStr("1e-7")))
  IN (\A i \in 1..n : le(unit(i))) /\ le(dom)
UnitaryOK(S) == CMClose(CMMul(CMConjT(S), S), CIdent(Len(S)), CStr("1e-6"))
SymmetricOK(S) == CMClose(S, CMTrans(S), CStr("1e-6"))
=============================================================================
