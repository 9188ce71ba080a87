----------------------------- MODULE ConvTrace -----------------------------
(***************************************************************************)
(* Judges recorded conversions: whatever the chain of conversions, every   *)
(* description held describes the network it was derived from.             *)
(*                                                                         *)
(* State: held, the descriptions in hand, each with the relations (one per *)
(* frequency) of the network at the start of its chain.                    *)
(***************************************************************************)
EXTENDS Waves, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, held

Zs(z) == [k \in 1..Len(z) |-> CPair(z[k])]
\* relations of the recorded data d (matrices per frequency) described as h
Rels(h, d) ==
  TLCEval([k \in 1..Len(d) |->
    LET A == CMat(d[k]) IN
    CASE h.rep = "S" -> RelOfSW(A, h.typ, Zs(h.z[k]))
      [] h.rep = "Z" -> RelOfZ(A)
      [] h.rep = "Y" -> RelOfY(A)
      [] OTHER -> RelOfVI(A)])
OfRel(h, rel, k) ==
  CASE h.rep = "S" -> SWOfRel(rel, h.typ, Zs(h.z[k]))
    [] h.rep = "Z" -> ZOfRel(rel)
    [] OTHER -> YOfRel(rel)
\* how much the conversion amplifies an error of its input: perturb each
\* relation entry's row by 1e-10 and see
Shaken(rel) ==
  LET n == Len(rel[1])
      \* the size of a row, voltages and currents compared at 50 Ohm
      rm(r) == LET m(w) == FoldSeq(LAMBDA x, y : CMax2(y, CAbs(x)), C0, rel[w][r])
               IN CMax2(m(1), CDiv(m(2), CInt(50)))
      unit(w) == IF w = 1 THEN C1 ELSE CInt(50)
      sh(w) == [r \in 1..n |-> [c \in 1..n |->
                 CAdd(rel[w][r][c], CMul(CMul(CStr("1e-10"), CMul(unit(w), rm(r))),
                      CAdd(CRat(((r * 7 + c * 3 + w) % 5) - 7, 5), CMul(CJ, CRat(((r + c * 2 + w) % 3) + 2, 3)))))]]
  IN << sh(1), sh(2) >>
JudgedAt(h, rel, X, k, tol) ==
  /\ X # <<>>
  /\ LET Y == OfRel(h, Shaken(rel), k) IN
     Y # <<>> /\ CLe(CMDist(X, Y), CMul(CStr(tol), CAdd(CStr("1e-9"), CMMax(X))))
Judged(h, rel, X, k) == JudgedAt(h, rel, X, k, "1e-6")
\* a chain of conversions is compared with its start only if no step of it
\* amplified errors by more than 30
Tame(ev, h) ==
  ev.k = "new" \/ LET src == held[ev.o] one == Rels(src, src.dat) IN
                  src.tame /\ \A k \in 1..h.nf : JudgedAt(h, one[k], OfRel(h, one[k], k), k, "3e-9")

Shape(h) == CASE h.sh = "scalar" -> <<>> [] h.sh = "list" -> <<h.nf>>
              [] h.sh = "mat" -> <<h.n, h.n>> [] OTHER -> <<h.nf, h.n, h.n>>

\* the description a successful step yields
Result(ev) ==
  CASE ev.k = "new" -> [rep |-> ev.rep, n |-> ev.n, nf |-> ev.nf, sh |-> ev.sh, typ |-> ev.typ, z |-> ev.z,
                        rels |-> Rels(ev, ev.data), dat |-> ev.data, tame |-> TRUE]
    [] ev.k = "conv" -> [held[ev.o] EXCEPT !.typ = ev.typ, !.z = ev.z]
    [] ev.k = "from_S" -> [held[ev.o] EXCEPT !.rep = ev.to]
    [] ev.k = "to_S" -> [held[ev.o] EXCEPT !.rep = "S", !.typ = "V", !.z = ev.z]

Chk(ev) ==
  LET h == Result(ev)
      src == held[ev.o]
      one == Rels(src, src.dat)     \* as last recorded: a one-step check
      X == TLCEval([k \in 1..h.nf |-> OfRel(h, one[k], k)])
      X0 == TLCEval([k \in 1..h.nf |-> OfRel(h, h.rels[k], k)])
      jdg == \A k \in 1..h.nf : Judged(h, one[k], X[k], k)
      tol(A) == CMul(CStr("1e-9"), CAdd(CStr("1e-6"), CMMax(A)))
      tol0(A) == CMul(CStr("2e-6"), CAdd(CStr("1e-6"), CMMax(A)))
  IN IF ~jdg THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE (IF ev.res.shape # Shape(h) THEN {"shape"} ELSE {})
          \cup (IF Len(ev.res.data) # h.nf THEN {"shape"}
                ELSE IF \A k \in 1..h.nf : CMClose(CMat(ev.res.data[k]), X[k], tol(X[k]))
                     THEN IF src.tame /\ Tame(ev, h) => \A k \in 1..h.nf : Judged(h, h.rels[k], X0[k], k) =>
                                CMClose(CMat(ev.res.data[k]), X0[k], tol0(X0[k]))
                          THEN {} ELSE {"chain"}
                     ELSE {"value"})

Clauses(ev) ==
  (CASE ev.k = "new" -> {}
     [] ev.k = "bad" -> IF ev.out = "ok" THEN {"noexc"} ELSE {}
     [] OTHER -> Chk(ev))
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})

Props(cl, ev, variant) ==
  CASE cl = "mut" -> {"C12"}
    [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "noexc" -> {"C11"}
    [] OTHER -> IF ev.k = "conv" THEN {"C05"} ELSE {"C06"}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ held = <<>>
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == Clauses(ev)
     IN IF cls = {}
        THEN IF ev.k \in {"conv", "from_S", "to_S"} /\ ev.out = "exc"
             THEN ei' = Len(Traces[ti].ev) + 1 /\ UNCHANGED <<ti, held>>     \* unspecified: abandoned
             ELSE /\ ei' = ei + 1 /\ ti' = ti
                  /\ held' = IF ev.k = "bad" THEN held
                             ELSE IF ev.k = "new" THEN Append(held, Result(ev))
                             ELSE Append(held, [Result(ev) EXCEPT !.dat = ev.res.data, !.tame = Tame(ev, Result(ev))])
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, ev, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ UNCHANGED <<ti, held>>
Spec == Init /\ [][Next]_<<ti, ei, held>>
=============================================================================
