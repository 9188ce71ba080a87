------------------------------ MODULE TsfTrace ------------------------------
(***************************************************************************)
(* Judges touchstones written and read.                                    *)
(* State: texts, the texts at hand in tokens (opts, rows, special lines).  *)
(***************************************************************************)
EXTENDS Touchstone, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, texts, files

Tol(X, e) == CMul(CStr(e), CAdd(C1, CMMax(X)))
NearF(a, b, e) == CClose(a, b, CMul(CStr(e), CAbs(b)))

-----------------------------------------------------------------------------
\* what was written, against the object: ev.own: its ports, frequencies (Hz)
\* and S at its own reference impedance ev.zo
ChkWrite(ev) ==
  IF ev.out = "exc" THEN {"exc"}
  ELSE LET t == ev.res.text
           o == Opts(t.opts)
           n == Len(ev.ports)
           m == Len(ev.own)
       IN IF Len(t.rows) # m \/ ~WellFormed(t.rows) THEN {"rows"}
          ELSE IF PortsOf(t.rows[1].w) # n THEN {"rows"}
          ELSE (IF t.ports = ev.ports THEN {} ELSE {"ports"})
               \cup (IF (ev.unit # "none" /\ o.unit # ev.unit) \/ (ev.fmt # "none" /\ o.fmt # ev.fmt) \/ o.typ # (IF ev.typ = "none" THEN "S" ELSE ev.typ) THEN {"header"} ELSE {})
               \cup (IF (ev.zr # "" /\ (Len(o.r) # 1 \/ ~CEq(o.r[1], Num(ev.zr)))) THEN {"header"} ELSE {})
               \cup (IF \A i \in 1..m : CClose(FAt(o, t.rows[i]), Num(ev.own[i].f), CMul(Num(ev.dfu), UnitF(o.unit))) \/ NearF(FAt(o, t.rows[i]), Num(ev.own[i].f), "1e-11")
                     THEN {} ELSE {"f"})
               \* the text tells the network: compared at the reference of the object, or
               \* as the matrix that is written
               \cup (IF \A i \in 1..m :
                          LET S == CMat(ev.own[i].S)
                              rel == RelOfSW(S, "V", All(n, Num(ev.zo)))
                              W == CASE o.typ = "Z" -> ZOfRel(rel) [] o.typ = "Y" -> YOfRel(rel)
                                     [] OTHER -> LET zs == Ref(o, n, <<>>) IN
                                                 IF \A k \in 1..n : CEq(zs[k], Num(ev.zo)) THEN S ELSE SWOfRel(rel, "P", zs)
                          IN W = <<>> \/ CLe(CInt(5000), CMMax(W)) \/ CMClose(Matrix(o.fmt, n, t.rows[i].w), W, Tol(W, ev.prec))
                     THEN {} ELSE {"S"})

\* what was read from text t
ChkRead(t, ev) ==
  LET o == Opts(t.opts)
      m == Len(t.rows)
      n == PortsOf(t.rows[1].w)
      z == IF ev.zq = "" THEN CInt(50) ELSE Num(ev.zq)
      fq(i) == CDiv(FAt(o, t.rows[i]), UnitF(ev.uq))
      r == ev.res
      pts == IF ev.pq # <<>> THEN ev.pq ELSE IF t.ports # <<>> THEN t.ports ELSE <<>>
  IN IF ev.out = "exc" THEN {"exc"}
     ELSE IF r.dims # <<m, n>> THEN {"rows"}
     ELSE (IF Len(r.ports) = n /\ IsInjective(r.ports) /\ (pts # <<>> => r.ports = pts) THEN {} ELSE {"ports"})
          \cup (IF \A i \in 1..m : NearF(Num(r.fs[i]), fq(i), "1e-12") THEN {} ELSE {"f"})
          \cup (IF CEq(Num(r.z), z) THEN {} ELSE {"z"})
          \cup (IF \A i \in 1..m :
                     LET S == SAt(o, t.rows[i], z) IN S = <<>> \/ CLe(CInt(1000), CMMax(S)) \/ CMClose(CMat(r.S[i]), S, Tol(S, "1e-9"))
                THEN {} ELSE {"S"})
          \cup (IF "spec" \in DOMAIN r /\ r.spec # t.special THEN {"special"} ELSE {})
          \cup (IF "xpos" \in DOMAIN r /\ (Len(r.xpos) # n \/ \E i \in 1..n : ~CEq(Num(r.xpos[i]), IF ev.gxp = <<>> THEN C0 ELSE Num(ev.gxp[i]))) THEN {"xpos"} ELSE {})
          \cup (IF "zc" \in DOMAIN r /\ \E i \in 1..m : t.rows[i].zc # <<>> /\
                     ~(Len(r.zc) = m /\ Len(r.gm) = m /\ \A k \in 1..n : CClose(CPair(r.zc[i][k]), CPair(t.rows[i].zc[k]), CStr("1e-9"))
                                                        /\ CClose(CPair(r.gm[i][k]), CPair(t.rows[i].gm[k]), CStr("1e-9")))
                THEN {"zc"} ELSE {})

After(ev) ==
  CASE ev.k = "hand" -> Append(texts, ev.res.text)
    [] ev.k = "write" -> Append(texts, ev.res.text)
    [] OTHER -> texts
Skip(ev) == ev.k = "read" /\ ev.skip
Clauses(ev) ==
  (CASE ev.k = "write" -> ChkWrite(ev)
     [] ev.k = "read" -> IF ev.skip THEN {} ELSE ChkRead(texts[ev.t], ev)
     [] ev.k = "bad" -> IF ev.out = "ok" THEN {"noexc"} ELSE {}
     [] OTHER -> IF ev.out = "exc" THEN {"exc"} ELSE {})
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})
Props(cl, ev, variant) ==
  CASE cl = "mut" -> {"C12"} [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "noexc" -> {"C11", "C15"}
    [] cl = "xpos" -> {"C03", "C15"}
    [] ev.k = "write" -> {"C14"}
    [] ev.k = "read" -> IF files[ev.t] = "write" THEN {"C14", "C15"} ELSE {"C15"}
    [] OTHER -> {"C14", "C15"}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ texts = <<>> /\ files = <<>>
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == TLCEval(Clauses(ev))
     IN IF cls = {} THEN /\ ei' = ei + 1 /\ ti' = ti /\ texts' = After(ev)
                         /\ files' = IF ev.k \in {"hand", "write"} THEN Append(files, ev.k) ELSE files
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, ev, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ ti' = ti /\ UNCHANGED <<texts, files>>
Spec == Init /\ [][Next]_<<ti, ei, texts, files>>
=============================================================================
