------------------------------- MODULE Waves -------------------------------
(***************************************************************************)
(* Wave definitions and representations of a linear n-port.                *)
(*                                                                         *)
(* A network is a relation <<P, Q>>:  P V + Q I = 0  (I into the ports).   *)
(* A wave definition gives, for a port with impedance z, the forward and   *)
(* reflected wave as combinations of V and I:                              *)
(*    a = w[1] V + w[2] I,   b = w[3] V + w[4] I                           *)
(***************************************************************************)
EXTENDS Elements, TLC

Wave(typ, z) ==
  LET h == CHalf(C1) IN
  CASE typ = "V" -> << h, CHalf(z), h, CNeg(CHalf(z)) >>
    [] typ = "P" -> LET s == CSqrt(z) IN
                    << CHalf(CInv(s)), CHalf(s), CHalf(CInv(s)), CNeg(CHalf(s)) >>
    [] typ = "G" -> LET i == CInv(CSqrt(CRe(z))) IN
                    << CHalf(i), CHalf(CMul(z, i)), CHalf(i), CNeg(CHalf(CMul(CConj(z), i))) >>
WaveTypes == {"V", "P", "G"}
\* for which impedances the wave definition is made
WaveZOK(typ, z) == IF typ = "G" THEN CLt(C0, CRe(z))
                   ELSE CLt(C0, CRe(z)) /\ CEq(CIm(z), C0)

\* relation of the n-port with S-matrix S, wave type typ, port impedances zs
RelOfSW(S, typ, zs) ==
  LET n == Len(S)
      w == TLCEval([k \in 1..n |-> Wave(typ, zs[k])])
  IN << [r \in 1..n |-> [c \in 1..n |-> CSub(IF r = c THEN w[r][3] ELSE C0, CMul(S[r][c], w[c][1]))]],
        [r \in 1..n |-> [c \in 1..n |-> CSub(IF r = c THEN w[r][4] ELSE C0, CMul(S[r][c], w[c][2]))]] >>

\* S-matrix of a relation:  V = va a + vb b, I = ia a + ib b per port
SWOfRel(rel, typ, zs) ==
  LET n == Len(rel[1])
      inv == TLCEval([k \in 1..n |->
               LET w == Wave(typ, zs[k])
                   d == CSub(CMul(w[1], w[4]), CMul(w[2], w[3]))
               IN << CDiv(w[4], d), CDiv(CNeg(w[2]), d), CDiv(CNeg(w[3]), d), CDiv(w[1], d) >>])
      comb(x, y) == [r \in 1..n |-> [c \in 1..n |->
                      CAdd(CMul(rel[1][r][c], inv[c][x]), CMul(rel[2][r][c], inv[c][y]))]]
      A == comb(1, 3)
      B == comb(2, 4)
  IN CMSolve(B, CMScale(CInt(-1), A))

RelOfZ(Z) == << CIdent(Len(Z)), CMScale(CInt(-1), Z) >>
RelOfY(Y) == << CMScale(CInt(-1), Y), CIdent(Len(Y)) >>
ZOfRel(rel) == CMSolve(rel[1], CMScale(CInt(-1), rel[2]))
YOfRel(rel) == CMSolve(rel[2], CMScale(CInt(-1), rel[1]))
\* [V2, I2] = M [V1, I1] with I1 counted OUT of port 1 and I2 into port 2
RelOfVI(M) ==
  << << <<M[1][1], CInt(-1)>>, <<M[2][1], C0>> >>,
     << <<CNeg(M[1][2]), C0>>, <<CNeg(M[2][2]), CInt(-1)>> >> >>
=============================================================================
