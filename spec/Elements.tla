------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* The laws of the elementary RF objects, written from their circuit       *)
(* diagrams and defining formulas.                                         *)
(*                                                                         *)
(* A linear n-port is given by a relation <<P, Q>>: P V + Q I = 0, with V  *)
(* the port voltages and I the currents flowing INTO the ports.  <<>> means*)
(* "not specified" (a singular case no statement is made about).           *)
(*                                                                         *)
(* Parameters arrive as decimal text; "inf" is text too and handled before *)
(* any arithmetic.                                                         *)
(***************************************************************************)
EXTENDS CNum, FiniteSets

CLight == CInt(299792458)
Inf == "inf"
Num(s) == CStr(s)
IsZeroT(s) == s # Inf /\ CLe(CAbs(Num(s)), CStr("1e-300"))

-----------------------------------------------------------------------------
\* S <-> relation.  z is a real scalar reference impedance (a CNum) for all
\* ports:  a = (V + z I)/2, b = (V - z I)/2, b = S a.
RelOfS(S, z) ==
  LET n == Len(S) IN
  << CMSub(CIdent(n), S), CMScale(CNeg(z), CMAdd(CIdent(n), S)) >>

SOfRel(rel, z) ==
  IF rel = <<>> THEN <<>>
  ELSE LET P == rel[1]
           Q == CMScale(CInv(z), rel[2])
           X == CMSolve(CMSub(P, Q), CMScale(CInt(-1), CMAdd(P, Q)))
       IN X

-----------------------------------------------------------------------------
(* RLC ladder: (s) -- Rs -- Ls -- Cs --+-- (p),  Rp, Lp, Cp from (p) to     *)
(* ground.  p is a record of texts Rs Ls Cs Rp Lp Cp.                       *)
\* series branch: <<"open">> or <<"z", value>>
SeriesZ(p, w) ==
  LET zero == CLe(CAbs(w), CStr("1e-300")) IN
  IF p.Cs # Inf /\ (zero \/ IsZeroT(p.Cs)) THEN <<"open">>
  ELSE IF p.Rs = Inf \/ (p.Ls = Inf /\ ~zero) THEN <<"open">>
  ELSE <<"z", CAdd(CAdd(Num(p.Rs), IF zero THEN C0 ELSE CMul(CMul(CJ, w), Num(p.Ls))),
              IF p.Cs = Inf THEN C0 ELSE CInv(CMul(CMul(CJ, w), Num(p.Cs)))) >>
\* parallel branch: <<"short">> or <<"y", value>>
ParallelY(p, w) ==
  LET zero == CLe(CAbs(w), CStr("1e-300")) IN
  IF p.Lp # Inf /\ (zero \/ IsZeroT(p.Lp)) THEN <<"short">>
  ELSE IF IsZeroT(p.Rp) \/ (p.Cp = Inf /\ ~zero) THEN <<"short">>
  ELSE <<"y", CAdd(CAdd(IF p.Rp = Inf THEN C0 ELSE CInv(Num(p.Rp)),
                        IF p.Lp = Inf THEN C0 ELSE CInv(CMul(CMul(CJ, w), Num(p.Lp)))),
                   IF zero THEN C0 ELSE CMul(CMul(CJ, w), Num(p.Cp))) >>
RelRLC(p, f) ==
  LET w == COmega(f)
      s == SeriesZ(p, w)
      y == ParallelY(p, w)
      \* V1 - V2 = z I1, or I1 = 0
      r1 == IF s[1] = "open" THEN << <<C0, C0>>, <<C1, C0>> >>
            ELSE << <<C1, CInt(-1)>>, <<CNeg(s[2]), C0>> >>
      \* I1 + I2 = y V2, or V2 = 0
      r2 == IF y[1] = "short" THEN << <<C0, C1>>, <<C0, C0>> >>
            ELSE << <<C0, CNeg(y[2])>>, <<C1, C1>> >>
  IN << <<r1[1], r2[1]>>, <<r1[2], r2[2]>> >>

-----------------------------------------------------------------------------
(* Transmission line with series impedance z and shunt admittance y per    *)
(* length, constant over its length L.                                     *)
Gamma(z, y) == CSqrt(CMul(z, y))
\* sinh(g x)/g, which is x when nothing propagates (f = 0 without one of the losses)
ShG(g, x) == LET gx == CMul(g, x) IN
  IF CLe(CAbs(gx), CStr("1e-6")) THEN CMul(x, CAdd(C1, CDiv(CMul(gx, gx), CInt(6)))) ELSE CDiv(CSinh(gx), g)
\* V and I (in +x direction) at distance x given those at x = 0
LineV(z, y, x, v0, i0) ==
  LET g == Gamma(z, y) IN CSub(CMul(CCosh(CMul(g, x)), v0), CMul(CMul(z, ShG(g, x)), i0))
LineI(z, y, x, v0, i0) ==
  LET g == Gamma(z, y) IN CSub(CMul(CCosh(CMul(g, x)), i0), CMul(CMul(y, ShG(g, x)), v0))
\* port 1 at x = 0, port 2 at x = L; currents into the ports
RelLine(z, y, L) ==
  IF CLe(CAbs(L), CStr("1e-300"))
  THEN << << <<C1, CInt(-1)>>, <<C0, C0>> >>, << <<C0, C0>>, <<C1, C1>> >> >>
  ELSE LET g == Gamma(z, y) ch == CCosh(CMul(g, L)) sh == ShG(g, L)
       IN \* V2 = ch V1 - z sh I1 ;  -I2 = ch I1 - y sh V1
          << << <<CNeg(ch), C1>>, <<CMul(y, sh), C0>> >>,
             << <<CMul(z, sh), C0>>, <<CNeg(ch), CInt(-1)>> >> >>

(* A line given by a record of texts with exactly the fields used:          *)
(*   LTL, CTL, rTL, gTL per length, or Z0TL with vr and rTL.                *)
HasF(p, k) == k \in DOMAIN p
FOr(p, k, d) == IF HasF(p, k) THEN Num(p[k]) ELSE d
LineLTL(p) == IF HasF(p, "LTL") THEN Num(p.LTL)
              ELSE CDiv(Num(p.Z0TL), CMul(CLight, FOr(p, "vr", C1)))
LineCTL(p) == IF HasF(p, "CTL") THEN Num(p.CTL)
              ELSE CInv(CMul(Num(p.Z0TL), CMul(CLight, FOr(p, "vr", C1))))
\* rsk: the part of the resistance that grows with the root of the frequency
LineZ(p, f) == CAdd(CAdd(FOr(p, "rTL", C0), IF HasF(p, "rsk") THEN CMul(Num(p.rsk), CSqrt(f)) ELSE C0),
                    CMul(CJW(f), LineLTL(p)))
LineY(p, f) == CAdd(FOr(p, "gTL", C0), CMul(CJW(f), LineCTL(p)))
RelTRL(p, f) == RelLine(LineZ(p, f), LineY(p, f), Num(p.L))

-----------------------------------------------------------------------------
(* Ideal coupled-line coupler: p.kc coupling, p.f0 centre frequency (or     *)
(* "any": a quarter wave at every frequency).  Ports A1 A2 B1 B2: A1 faces  *)
(* B1, A2 faces B2; diagonal ports isolated.                                *)
SCoupler(p, f) ==
  LET th == IF p.f0 = "any" THEN CHalf(CPi) ELSE CMul(CHalf(CPi), CDiv(f, Num(p.f0)))
      e == CExp(CMul(CJ, th))
      co == CRe(e) si == CIm(e)
      k == Num(p.kc)
      r == CSqrt(CSub(C1, CSq(k)))
      d == CAdd(CMul(r, co), CMul(CJ, si))
      A == CDiv(r, d)                          \* through
      B == CDiv(CMul(CMul(CJ, k), si), d)      \* coupled
  IN << <<C0, A, B, C0>>, <<A, C0, C0, B>>, <<B, C0, C0, A>>, <<C0, B, A, C0>> >>

\* arc: an inductance to ground (absent: open)
RelArc(p, f) ==
  IF p.Larc = Inf THEN << << <<C0>> >>, << <<C1>> >> >>
  ELSE << << <<C1>> >>, << <<CNeg(CMul(CJW(f), Num(p.Larc)))>> >> >>
=============================================================================
