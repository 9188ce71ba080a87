------------------------------ MODULE TlrTrace ------------------------------
(***************************************************************************)
(* Judges recorded resolutions of line descriptions against the physics of *)
(* the coaxial line they were taken from.                                  *)
(***************************************************************************)
EXTENDS TlrLaws, Elements, Json, IOUtils, SequencesExt, TLC

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei

Mu0 == CStr("1.25663706127e-6")
Eps0 == CInv(CMul(Mu0, CSq(CLight)))
Eta0 == CMul(Mu0, CLight)
\* the line of the event at frequency f and place x: a quantity by its name
\* t: texts OD (value, slope), ID, epsr, mur, rhoI, rhoO, murI, murO, med = <<kind, value>>
Quantity(t, f, x) ==
  LET w == COmega(f)
      od == CAdd(Num(t.OD[1]), CMul(Num(t.OD[2]), x))
      id == Num(t.ID) er == Num(t.epsr) mr == Num(t.mur)
      ln == CLog(CDiv(od, id))
      etar == CSqrt(CDiv(mr, er))
      vr == CInv(CSqrt(CMul(mr, er)))
      z0 == CDiv(CMul(CMul(etar, Eta0), ln), CTwoPi)
      ltl == CDiv(z0, CMul(CLight, vr))
      ctl == CInv(CMul(z0, CMul(CLight, vr)))
      rs(rho, mu) == CSqrt(CHalf(CMul(w, CMul(Mu0, CMul(Num(mu), Num(rho))))))
      rsi == rs(t.rhoI, t.murI) rso == rs(t.rhoO, t.murO)
      qi == CInv(CMul(CPi, id)) qo == CInv(CMul(CPi, od))
      we == CMul(w, CMul(er, Eps0))
      sg == IF t.med[1] = "sigma" THEN Num(t.med[2]) ELSE CMul(we, Num(t.med[2]))
      g == CDiv(CMul(CTwoPi, sg), ln)
      r == CAdd(CMul(qi, rsi), CMul(qo, rso))
      rz == CAdd(r, CMul(CMul(CJ, w), ltl))
      gy == CAdd(g, CMul(CMul(CJ, w), ctl))
      a == CRe(CSqrt(CMul(rz, gy)))
  IN [OD |-> od, ID |-> id, rho |-> Num(t.rhoI), rhoI |-> Num(t.rhoI), rhoO |-> Num(t.rhoO), RsI |-> rsi, RsO |-> rso,
      rTL |-> r, rTLI |-> CMul(qi, rsi), rTLO |-> CMul(qo, rso), qTLI |-> qi, qTLO |-> qo,
      murI |-> Num(t.murI), murO |-> Num(t.murO), A |-> a,
      AdB |-> CDiv(CMul(CInt(20), a), CLog(CInt(10))), gTL |-> g, sigma |-> sg, tand |-> CDiv(sg, we),
      LTL |-> ltl, CTL |-> ctl, Z0TL |-> z0, epsr |-> er, mur |-> mr, vr |-> vr, etar |-> etar,
      rjwL |-> rz, gjwC |-> gy]

\* |a - b| within a part of scale
Rel(a, b, tol, scale) == CClose(a, b, CMul(CStr(tol), CAbs(scale)))
\* relations that fail between the values v (name -> number) found at f
Broken(v, f) ==
  LET w == COmega(f)
      D == DOMAIN v
      has(s) == s \subseteq D
      eq(a, b) == Rel(a, b, "1e-7", CMax2(CAbs(a), CAbs(b)))
      jw == CMul(CJ, w)
      ln == CLog(CDiv(v["OD"], v["ID"]))
      \* what is small against w L, w C does not matter
      wl == CMul(w, v["LTL"]) wc == CMul(w, v["CTL"])
      T == << <<"LTL", {"LTL", "Z0TL", "vr"} \subseteq D => eq(v["LTL"], CDiv(v["Z0TL"], CMul(CLight, v["vr"])))>>,
              <<"CTL", {"CTL", "Z0TL", "vr"} \subseteq D => eq(CMul(v["CTL"], CMul(v["Z0TL"], CMul(CLight, v["vr"]))), C1)>>,
              <<"Z0", {"Z0TL", "LTL", "CTL"} \subseteq D => eq(CSq(v["Z0TL"]), CDiv(v["LTL"], v["CTL"]))>>,
              <<"vr", {"vr", "LTL", "CTL"} \subseteq D => eq(CSq(CMul(v["vr"], CLight)), CInv(CMul(v["LTL"], v["CTL"])))>>,
              <<"coax", {"Z0TL", "etar", "OD", "ID"} \subseteq D => eq(v["Z0TL"], CDiv(CMul(CMul(v["etar"], Eta0), ln), CTwoPi))>>,
              <<"g1", {"gTL", "sigma", "OD", "ID"} \subseteq D => Rel(v["gTL"], CDiv(CMul(CTwoPi, v["sigma"]), ln), "1e-7", CMax2(CAbs(v["gTL"]), wc))>>,
              <<"g2", {"gTL", "sigma", "Z0TL", "etar", "CTL"} \subseteq D =>
                  Rel(CMul(v["gTL"], v["Z0TL"]), CMul(CMul(v["sigma"], v["etar"]), Eta0), "1e-7",
                      CMul(v["Z0TL"], CMax2(CAbs(v["gTL"]), wc)))>>,
              <<"r", {"rTL", "rTLI", "rTLO"} \subseteq D => Rel(v["rTL"], CAdd(v["rTLI"], v["rTLO"]), "1e-7", CMax2(CAbs(v["rTL"]), wl))>>,
              <<"rI", {"rTLI", "RsI", "qTLI"} \subseteq D => Rel(v["rTLI"], CMul(v["RsI"], v["qTLI"]), "1e-7", CMax2(CAbs(v["rTLI"]), wl))>>,
              <<"rO", {"rTLO", "RsO", "qTLO"} \subseteq D => Rel(v["rTLO"], CMul(v["RsO"], v["qTLO"]), "1e-7", CMax2(CAbs(v["rTLO"]), wl))>>,
              <<"qI", {"qTLI", "ID"} \subseteq D => eq(CMul(v["qTLI"], CMul(CPi, v["ID"])), C1)>>,
              <<"qO", {"qTLO", "OD"} \subseteq D => eq(CMul(v["qTLO"], CMul(CPi, v["OD"])), C1)>>,
              <<"RsI", {"RsI", "rhoI", "murI"} \subseteq D => eq(CSq(v["RsI"]), CHalf(CMul(w, CMul(Mu0, CMul(v["murI"], v["rhoI"])))))>>,
              <<"RsO", {"RsO", "rhoO", "murO"} \subseteq D => eq(CSq(v["RsO"]), CHalf(CMul(w, CMul(Mu0, CMul(v["murO"], v["rhoO"])))))>>,
              <<"etar", {"etar", "mur", "epsr"} \subseteq D => eq(CMul(CSq(v["etar"]), v["epsr"]), v["mur"])>>,
              <<"vr2", {"vr", "mur", "epsr"} \subseteq D => eq(CMul(CSq(v["vr"]), CMul(v["mur"], v["epsr"])), C1)>>,
              <<"AdB", {"A", "AdB"} \subseteq D => eq(CMul(CInt(20), v["A"]), CMul(v["AdB"], CLog(CInt(10))))>>,
              <<"sigma", {"sigma", "tand", "epsr"} \subseteq D => eq(v["sigma"], CMul(w, CMul(Eps0, CMul(v["epsr"], v["tand"]))))>>,
              <<"rjwL", {"rjwL", "rTL", "LTL"} \subseteq D => eq(v["rjwL"], CAdd(v["rTL"], CMul(jw, v["LTL"])))>>,
              <<"gjwC", {"gjwC", "gTL", "CTL"} \subseteq D => eq(v["gjwC"], CAdd(v["gTL"], CMul(jw, v["CTL"])))>>,
              <<"A", {"A", "rjwL", "gjwC"} \subseteq D => Rel(v["A"], CRe(CSqrt(CMul(v["rjwL"], v["gjwC"]))), "1e-7",
                                               CMax2(CAbs(v["A"]), CSqrt(CMul(wl, wc))))>>,
              <<"gamma", {"gamma", "rjwL", "gjwC"} \subseteq D => eq(v["gamma"], CSqrt(CMul(v["rjwL"], v["gjwC"])))>>,
              <<"Zc", {"Zc", "rjwL", "gjwC"} \subseteq D => eq(v["Zc"], CSqrt(CDiv(v["rjwL"], v["gjwC"])))>>,
              <<"beta", {"beta", "LTL", "CTL"} \subseteq D => eq(v["beta"], CSqrt(CMul(wl, wc)))>> >>
  IN {T[k][1] : k \in {k \in 1..Len(T) : ~T[k][2]}}

Vals(pt) == TLCEval([n \in DOMAIN pt |-> CPair(pt[n])])
Truth(ev) == Range(ev.facts) \cup (IF "rhoEq" \in Range(ev.facts) THEN {"rhoI", "rhoO"} ELSE {})

\* pt: the values found; a: where, and what was given there
ChkPoint(ev, pt, a) ==
  LET v == Vals(pt)
      f == Num(a.f)
      q == TLCEval(Quantity(ev.t, f, Num(a.x)))
      gv == TLCEval([k \in DOMAIN ev.gv |-> CPair(a.gv[k])])
      off == {k \in DOMAIN ev.gv : ~Rel(gv[k], q[ev.gv[k]], "1e-9", CMax2(CAbs(gv[k]), CAbs(q[ev.gv[k]])))}
  IN IF ~Assert(off = {}, <<"driver physics", ti, ei, {<<ev.gv[k], CShow(gv[k]), CShow(q[ev.gv[k]])>> : k \in off}>>) THEN {}
     ELSE (IF \E k \in DOMAIN ev.gv : IF ev.gv[k] \in DOMAIN v THEN ~Rel(v[ev.gv[k]], gv[k], "1e-12", gv[k]) ELSE TRUE
           THEN {"kept"} ELSE {})
          \cup (IF ev.suff
                THEN (IF {"rjwL", "gjwC"} \subseteq DOMAIN v
                      THEN IF Rel(v["rjwL"], q.rjwL, "1e-7", q.rjwL) /\ Rel(v["gjwC"], q.gjwC, "1e-7", q.gjwC) THEN {} ELSE {"same"}
                      ELSE {"same"})
                     \cup (IF ev.all /\ \E n \in DOMAIN v \cap {"murI", "murO", "mur", "epsr", "Z0TL", "vr", "etar", "LTL", "CTL"} :
                                 ~Rel(v[n], q[n], "1e-7", q[n]) THEN {"same"} ELSE {})
                     \cup (IF ev.all /\ Broken(v, f) # {} THEN {"rel"} ELSE {})
                ELSE {})
Chk(ev) ==
  IF ev.out = "exc" THEN IF ev.suff THEN {"exc"} ELSE {}
  ELSE UNION {ChkPoint(ev, ev.res.pts[k], ev.at[k]) : k \in 1..Len(ev.res.pts)}
       \cup (IF ev.suff /\ ev.res.S # <<>>
             THEN LET f == Num(ev.f)
                      q == Quantity(ev.t, f, C0)
                      X == SOfRel(RelLine(q.rjwL, q.gjwC, Num(ev.L)), Num(ev.zb))
                  IN IF X = <<>> THEN {} ELSE IF CMClose(CMat(ev.res.S), X, CStr("1e-6")) THEN {} ELSE {"S"}
             ELSE {})
Clauses(ev) == Chk(ev)
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
Props(cl, variant) ==
  CASE cl = "mut" -> {"C12"} [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "S" -> {"C16", "C17"}
    [] OTHER -> {"C17"}
Which(ev) == IF ev.out = "exc" THEN {} ELSE UNION {Broken(Vals(ev.res.pts[k]), Num(ev.at[k].f)) : k \in 1..Len(ev.res.pts)}

Init == ti \in 1..Len(Traces) /\ ei = 1
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == Clauses(ev)
     IN IF cls = {} THEN ei' = ei + 1 /\ ti' = ti
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, Traces[ti].variant) : c \in cls}), exc |-> ev.exc,
                   which |-> SetToSeq(Which(ev))]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, ei>>
=============================================================================
