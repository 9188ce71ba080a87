------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Judges recorded lives of single RF objects (ObjGen) against the laws of *)
(* Elements and Taper.                                                     *)
(*                                                                         *)
(* State: objs, what each object held is (kind, parameters, reference      *)
(* impedance, ports, positions), and for each whether it has been copied,  *)
(* changed or has refused something (to say which property a failure       *)
(* bears on).                                                              *)
(***************************************************************************)
EXTENDS Taper, Waves, Power, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, objs

Range1(s) == {s[k] : k \in 1..Len(s)}
IdxIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

-----------------------------------------------------------------------------
\* the network of object o at frequency f, as a relation; <<>>: not specified
HasTab(o, f) == \E k \in 1..Len(o.fs) : CEq(Num(o.fs[k]), f)
Tab(o, f) == CMat(o.S[CHOOSE k \in 1..Len(o.fs) : CEq(Num(o.fs[k]), f)
                                                    /\ \A j \in 1..k-1 : ~CEq(Num(o.fs[j]), f)])
RelObj(o, f) ==
  CASE o.kind = "rlc" -> RelRLC(o.p, f)
    [] o.kind = "arc" -> RelArc(o.p, f)
    [] o.kind = "cpl" -> RelOfS(SCoupler(o.p, f), Num(o.zb))
    [] o.kind = "base" -> RelOfS(Tab(o, f), Num(o.zb))
    [] OTHER -> RelLineP(o.ps, Num(o.L), f)
SObj(o, f, z) == SOfRel(RelObj(o, f), z)
ZOf(o, zb) == Num(IF zb = "" THEN o.zb ELSE zb)
Pos(o) == IF o.kind \in {"line", "taper"} /\ o.x[1] = "at" THEN <<Num(o.x[2]), CAdd(Num(o.x[2]), Num(o.L))>>
          ELSE IF o.kind \in {"line", "taper"} THEN <<Num(o.x[2]), Num(o.x[3])>>
          ELSE [k \in 1..Len(o.x) |-> Num(o.x[k])]

\* parameters as -> new values
SetPar(o, vals) ==
  IF o.kind = "line"
  THEN IF Len(vals) = 0 THEN o
       ELSE [o EXCEPT !.L = vals[1][2], !.x = <<"at", o.x[2]>>]
  ELSE [o EXCEPT !.p = [n \in DOMAIN o.p |->
          IF \E k \in 1..Len(vals) : vals[k][1] = n THEN vals[CHOOSE k \in 1..Len(vals) : vals[k][1] = n][2]
          ELSE o.p[n]]]
Same(a, b) == a = b \/ (a # Inf /\ b # Inf /\ CEq(Num(a), Num(b)))
Old(o, n) == IF o.kind = "line" THEN o.L ELSE o.p[n]
Changes(o, vals) == \E k \in 1..Len(vals) : ~Same(Old(o, vals[k][1]), vals[k][2])

-----------------------------------------------------------------------------
Big(S) == ~CLe(CMMax(S), CStr("1e4"))
TolS(o, S) == CMul(CStr(IF o.kind = "taper" THEN "1e-6" ELSE "2e-7"), CAdd(C1, CMMax(S)))
Lossless(o) ==
  CASE o.kind = "rlc" -> IsZeroT(o.p.Rs) /\ o.p.Rp = Inf
    [] o.kind \in {"arc", "cpl"} -> TRUE
    [] o.kind = "base" -> FALSE
    [] OTHER -> ~HasP(o.ps, "rTL") /\ ~HasP(o.ps, "gTL")
PermutedS(S, X, o) ==
  LET n == Len(X) IN
  n <= 4 /\ n >= 2 /\ Len(S) = n /\
  \E q \in Permutations(1..n) : CMClose(S, [i \in 1..n |-> [j \in 1..n |-> X[q[i]][q[j]]]], TolS(o, X))

ChkS(o, ev) ==
  LET n == Len(ev.fs)
      z == ZOf(o, ev.zb)
      avail == o.kind # "base" \/ \A i \in 1..n : HasTab(o, Num(ev.fs[i]))
      X == TLCEval([i \in 1..n |-> SObj(o, Num(ev.fs[i]), z)])
      det == \A i \in 1..n : X[i] # <<>> /\ ~Big(X[i])
      np == Len(o.ports)
      S == TLCEval([i \in 1..Len(ev.res.S) |-> CMat(ev.res.S[i])])
      okshape == IF ev.vec = "one" THEN ev.res.shape = <<np, np>> ELSE ev.res.shape = <<n, np, np>>
      bad == {i \in 1..n : ~CMClose(S[i], X[i], TolS(o, X[i]))}
  IN IF ~avail THEN IF ev.out = "ok" THEN {"noexc"} ELSE {}
     ELSE IF ~det THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF ~okshape \/ Len(S) # n THEN {"shape"}
     ELSE (IF bad # {} THEN {"S"} ELSE {})
          \cup (IF ev.vec # "one" /\ ev.res.arr # "T" THEN {"arr"} ELSE {})
          \cup (IF o.kind # "base" /\ \E i \in 1..n : ~PowerOK(S[i]) THEN {"passive"} ELSE {})
          \cup (IF Lossless(o) /\ \E i \in 1..n : ~UnitaryOK(S[i]) THEN {"lossless"} ELSE {})
          \cup (IF o.kind # "base" /\ \E i \in 1..n : ~SymmetricOK(S[i]) THEN {"recip"} ELSE {})

\* port voltages and currents (into the object) under the excitation E (waves
\* by port name at reference z; absent: 0)
Waves1(o, E) == TLCEval([i \in 1..Len(o.ports) |->
                  IF \E k \in 1..Len(E) : E[k][1] = o.ports[i]
                  THEN CPair(E[CHOOSE k \in 1..Len(E) : E[k][1] = o.ports[i]][2]) ELSE C0])
PortVI(X, a, z) == LET b == CMVec(X, a) IN
  << TLCEval([i \in 1..Len(a) |-> CAdd(a[i], b[i])]),
     TLCEval([i \in 1..Len(a) |-> CDiv(CSub(a[i], b[i]), z)]) >>
VTol == CStr("1e-6")
SeqMax(s) == FoldSeq(LAMBDA x, m : CMax2(m, x), C0, s)
Near(a, b, scale) == CClose(a, b, CMul(VTol, CAdd(CStr("1e-9"), scale)))

\* sampled line: places, values and what they should be
\* ev.res: xs (sampled places), n (number of places), V, I (pairs) or A (|V|)
LineOf(o, ev, f, v0, i0) == LineAt(o.ps, Num(o.L), f, [k \in 1..Len(ev.res.xs) |-> Num(ev.res.xs[k])], v0, i0)
PlacesOK(o, res) ==
  LET L == Num(o.L) n == Len(res.xs) eps == CMul(CStr("1e-9"), CAdd(C1, CAbs(L))) IN
  n >= 2 /\ CClose(Num(res.xs[1]), C0, eps) /\ CClose(Num(res.xs[n]), L, eps)
  /\ \A k \in 1..n-1 : CLe(Num(res.xs[k]), CAdd(Num(res.xs[k+1]), eps))
\* with a whole number of points per wavelength the steps are that small
ChkLine(o, ev, f, v0, i0, cur) ==
  LET P == TLCEval(LineOf(o, ev, f, v0, i0))
      n == Len(ev.res.xs)
      vm == CAdd(SeqMax([k \in 1..n |-> CAbs(P[k][1])]), CMul(CInt(50), SeqMax([k \in 1..n |-> CAbs(P[k][2])])))
      ok(k) == IF cur THEN Near(CPair(ev.res.V[k]), P[k][1], vm)
                           /\ Near(CMul(CInt(50), CPair(ev.res.I[k])), CMul(CInt(50), P[k][2]), vm)
               ELSE Near(Num(ev.res.A[k]), CAbs(P[k][1]), vm)
  IN IF Len(ev.res.V) # n /\ cur THEN {"places"}
     ELSE IF ~PlacesOK(o, ev.res) THEN {"places"}
     ELSE IF \A k \in 1..n : ok(k) THEN {} ELSE {"line"}

ChkMaxV(o, ev) ==
  LET z == ZOf(o, ev.zb)
      f == Num(ev.f)
      X == SObj(o, f, z)
      a == Waves1(o, ev.E)
      vi == TLCEval(PortVI(X, a, z))
      av == TLCEval([i \in 1..Len(a) |-> CAbs(vi[1][i])])
      v == Num(ev.res.v)
  IN IF o.kind = "base" /\ ~HasTab(o, f) THEN IF ev.out = "ok" THEN {"noexc"} ELSE {}
     ELSE IF X = <<>> THEN {}
     ELSE IF Big(X) THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF o.kind \in {"line", "taper"}
     THEN LET P == TLCEval(LineOf(o, ev, f, vi[1][1], CNeg(vi[2][1])))
              m == SeqMax([k \in 1..Len(P) |-> CAbs(P[k][1])])
              at == TLCEval(LineAt(o.ps, Num(o.L), f, <<Num(ev.res.wx)>>, vi[1][1], CNeg(vi[2][1])))
              top == Num(ev.res.top)        \* largest of all returned samples
              hi == CMul(CStr(IF ev.fine THEN "1.01" ELSE "1.6"), CAdd(top, CStr("1e-9")))
          IN ChkLine(o, ev, f, vi[1][1], CNeg(vi[2][1]), FALSE)
             \cup (IF CLe(CMul(CStr("0.9999999"), top), v) /\ CLe(v, hi)
                      /\ CLe(CMul(CStr("0.999999"), m), CAdd(v, CStr("1e-9"))) THEN {} ELSE {"max"})
             \cup (IF ev.res.wp # o.ports[1] \/ ~CLe(CStr("-0.0006"), Num(ev.res.wx))
                      \/ ~CLe(Num(ev.res.wx), CAdd(Num(o.L), CStr("0.0006")))
                      \/ (ev.fine /\ ~CLe(CMul(CStr("0.97"), v), CAdd(CAbs(at[1][1]), CStr("1e-6"))))
                   THEN {"where"} ELSE {})
     ELSE LET m == SeqMax(av) IN
          (IF Near(v, m, m) THEN {} ELSE {"max"})
          \cup (IF Len(ev.res.A) = Len(av) /\ \A k \in 1..Len(av) : Near(Num(ev.res.A[k]), av[k], m) THEN {} ELSE {"vals"})
          \cup (IF ev.res.wp \in Range1(o.ports) THEN
                  IF Near(av[IdxIn(o.ports, ev.res.wp)], m, m) THEN {} ELSE {"where"} ELSE {"where"})

ChkVISW(o, ev) ==
  LET z == ZOf(o, ev.zb)
      f == Num(ev.f)
      X == SObj(o, f, z)
      vi == TLCEval(PortVI(X, Waves1(o, ev.E), z))
      \* the last sample: the voltage at port 2 and the current into it
      n == Len(ev.res.xs)
      vm == CAdd(CAdd(CAbs(vi[1][1]), CAbs(vi[1][2])), CMul(CInt(50), CAdd(CAbs(vi[2][1]), CAbs(vi[2][2]))))
      ends == /\ Near(CPair(ev.res.V[1]), vi[1][1], vm) /\ Near(CPair(ev.res.V[n]), vi[1][2], vm)
              /\ Near(CMul(CInt(50), CPair(ev.res.I[n])), CMul(CInt(50), vi[2][2]), vm)
  IN IF X = <<>> THEN {} ELSE IF Big(X) THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE LET c == ChkLine(o, ev, f, vi[1][1], CNeg(vi[2][1]), TRUE) IN
          c \cup (IF "places" \in c THEN {} ELSE IF ends THEN {} ELSE {"ends"})
ChkSolveVI(o, ev) ==
  IF ev.out = "exc" THEN {"exc"}
  ELSE ChkLine(o, ev, Num(ev.f), CPair(ev.V0), CPair(ev.I0), TRUE)

\* what a printed object shows: <<name, value, precision>>; an endless value only has a name
Nano(t) == CMul(Num(t), CStr("1e9"))
Pico(t) == CMul(Num(t), CStr("1e12"))
Rlc1(p, n) == <<n, CASE n \in {"Rs", "Rp"} -> Num(p[n]) [] n \in {"Ls", "Lp"} -> Nano(p[n]) [] OTHER -> Pico(p[n]), C0>>
Shown(o, full) ==
  LET zb == {<<"Zbase", Num(o.zb), CStr("0.0051")>>}
      px == LET x == Pos(o) IN {<<"@" \o o.ports[k], x[k], CStr("0.00051")>> : k \in 1..Len(o.ports)} IN
  CASE o.kind = "rlc" -> IF ~full THEN {}
         ELSE {Rlc1(o.p, n) : n \in {n \in {"Rs", "Ls", "Cp"} : ~IsZeroT(o.p[n])} \cup {n \in {"Cs", "Rp", "Lp"} : o.p[n] # Inf}}
    [] o.kind = "arc" -> zb \cup (IF full /\ o.p.Larc # Inf THEN {<<"Larc", Nano(o.p.Larc), C0>>} ELSE {})
    [] o.kind = "cpl" -> zb \cup {<<"kc", Num(o.p.kc), CStr("0.000051")>>} \cup (IF full THEN px ELSE {})
    [] o.kind = "base" -> zb \cup (IF full THEN px \cup {<<"nf", CInt(Len(o.fs)), C0>>} ELSE {})
    [] OTHER -> {<<"Zbase", Num(o.zb), C0>>, <<"length", Num(o.L), CStr("0.00051")>>}
                \cup {<<"@" \o o.ports[k], C0, C0>> : k \in 1..Len(o.ports)}
ChkStr(o, ev) ==
  IF ev.out = "exc" THEN {"text"}
  ELSE LET W == Shown(o, ev.res.full)
           inf == IF o.kind = "arc" /\ ev.res.full /\ o.p.Larc = Inf THEN <<"Larc">> ELSE <<>>
           v == ev.res.vals
       IN IF ev.res.inf # inf \/ Len(v) # Cardinality(W) THEN {"text"}
          ELSE IF \A w \in W : \E k \in 1..Len(v) : /\ v[k][1] = w[1]
                    /\ CClose(Num(v[k][2]), w[2], CAdd(w[3], CMul(CStr("1e-5"), CAbs(w[2]))))
               THEN {} ELSE {"text"}

-----------------------------------------------------------------------------
\* objects held after the event
New(ev) == [kind |-> ev.kind, zb |-> ev.zb, ports |-> ev.ports, x |-> ev.x,
            p |-> ev.p, ps |-> ev.ps, L |-> ev.L, fs |-> ev.tfs, S |-> ev.S,
            cop |-> FALSE, set |-> FALSE, ref |-> FALSE]
After(ev) ==
  CASE ev.k = "new" -> Append(objs, New(ev))
    [] ev.k = "copy" -> Append([objs EXCEPT ![ev.o].cop = TRUE], [objs[ev.o] EXCEPT !.cop = TRUE])
    [] ev.k = "set" -> [objs EXCEPT ![ev.o] = [SetPar(@, ev.vals) EXCEPT !.set = TRUE]]
    [] ev.k = "badset" -> [objs EXCEPT ![ev.o].ref = TRUE]
    [] OTHER -> objs
SnapBad(os, sn) == {k \in 1..Len(os) :
   LET s == sn[k] p == Pos(os[k]) IN
   ~(s[1] = os[k].ports /\ s[3] = Len(os[k].ports) /\ Len(s[2]) = Len(p)
     /\ \A i \in 1..Len(p) : CClose(Num(s[2][i]), p[i], CStr("1e-9")))}

Clauses(ev) ==
  (CASE ev.k = "new" -> IF ev.out = "exc" THEN {"exc"} ELSE {}
     [] ev.k \in {"getS", "get1S"} -> ChkS(objs[ev.o], ev)
     [] ev.k = "set" -> IF ev.out = "exc" THEN {"exc"}
          ELSE IF ev.via = "getS" THEN ChkS(SetPar(objs[ev.o], ev.vals), ev)
          ELSE IF ev.res.mod # (IF Changes(objs[ev.o], ev.vals) THEN "T" ELSE "F") THEN {"mod"} ELSE {}
     [] ev.k \in {"badset", "badnew"} -> IF ev.out = "ok" THEN {"noexc"} ELSE {}
     [] ev.k = "copy" -> IF ev.out = "exc" THEN {"exc"} ELSE {}
     [] ev.k = "maxV" -> ChkMaxV(objs[ev.o], ev)
     [] ev.k = "visw" -> ChkVISW(objs[ev.o], ev)
     [] ev.k = "solveVI" -> ChkSolveVI(objs[ev.o], ev)
     [] ev.k = "str" -> ChkStr(objs[ev.o], ev)
     [] OTHER -> {})
  \cup (IF SnapBad(After(ev), ev.snap) # {} /\ ~(ev.k \in {"new", "copy"} /\ ev.out = "exc") THEN {"snap"} ELSE {})
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut", "snap"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})

Law(kind) == CASE kind = "rlc" -> "C18" [] kind \in {"arc", "cpl"} -> "C26" [] kind = "base" -> "C13" [] OTHER -> "C16"
\* whose business a failing event is: the first object it fails for
Hist(o) == (IF o.cop THEN {"C08"} ELSE {}) \cup (IF o.set THEN {"C10"} ELSE {}) \cup (IF o.ref THEN {"C11"} ELSE {})
Props(cl, ev, variant) ==
  LET o == IF "o" \in DOMAIN ev THEN objs[ev.o] ELSE New(ev) IN
  CASE cl = "mut" -> {"C12"}
    [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "noexc" -> {"C11"}
    [] cl = "mod" -> {"C10"}
    [] cl = "text" -> {"C28"} \cup Hist(o)
    [] cl \in {"passive", "lossless", "recip"} -> {"C07", Law(o.kind)}
    [] cl = "snap" -> LET b == SnapBad(After(ev), ev.snap) k == CHOOSE k \in b : TRUE oo == After(ev)[k] IN
         {Law(oo.kind)} \cup Hist(oo) \cup (IF ev.k = "copy" THEN {"C08"} ELSE {})
           \cup (IF ev.k = "badset" THEN {"C11"} ELSE {}) \cup (IF ev.k = "set" THEN {"C10"} ELSE {})
    [] OTHER ->
         IF ev.k = "copy" THEN {"C08"}
         ELSE IF ev.k = "badnew" THEN {"C11"}
         ELSE {Law(o.kind)} \cup Hist(o)
              \cup (IF ev.k \in {"getS", "set"} /\ (IF "vec" \in DOMAIN ev THEN ev.vec # "one" ELSE FALSE) THEN {"C25"} ELSE {})
              \cup (IF ev.k \in {"maxV", "visw"} THEN {"C21"} ELSE {})

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ objs = <<>>
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == Clauses(ev)
     IN IF cls = {}
        THEN /\ ei' = ei + 1 /\ ti' = ti /\ objs' = After(ev)
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, ev, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ UNCHANGED <<ti, objs>>
Spec == Init /\ [][Next]_<<ti, ei, objs>>
=============================================================================
