------------------------------ MODULE TabTrace ------------------------------
(***************************************************************************)
(* Judges the recorded life of table objects: whatever the history, a      *)
(* table returns what it holds exactly, interpolates what it holds now,    *)
(* and keeps frequencies, matrices, port names and positions together.     *)
(*                                                                         *)
(* State: objs, the table objects held, with what they must contain;       *)
(* defs, what is assumed of a new one when nothing is said.                *)
(***************************************************************************)
EXTENDS Waves, Spline, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, objs, defs

-----------------------------------------------------------------------------
\* tables: sequences of [f, S, ex]: ex: exactly as stored; S = <<>>: not judged
Wild(S) == IF S = <<>> THEN TRUE ELSE ~CLe(CMMax(S), CInt(30))
PutOne(tab, e) == SelectSeq(tab, LAMBDA x : ~CEq(x.f, e.f)) \o <<e>>
PutAll(tab, es) == FoldLeft(PutOne, tab, es)
Ent(e) == [f |-> Num(e.f), S |-> CMat(e.S), ex |-> TRUE]
Sorted(tab) == SortSeq(tab, LAMBDA a, b : CLt(a.f, b.f))
ConvS(S, z0, z1) ==
  IF S = <<>> THEN <<>> ELSE IF CEq(z0, z1) THEN S ELSE LET X == SOfRel(RelOfS(S, z0), z1) IN IF Wild(X) THEN <<>> ELSE X
AllGood(tab) == \A i \in 1..Len(tab) : tab[i].S # <<>>

\* a matrix S of a file with impedances zs, in terms of z
FromFile(S, zs, z) ==
  IF \A k \in 1..Len(zs) : CEq(Num(zs[k]), z) THEN S
  ELSE LET X == SWOfRel(RelOfSW(S, "P", [k \in 1..Len(zs) |-> Num(zs[k])]), "V", [k \in 1..Len(zs) |-> z])
       IN IF Wild(X) THEN <<>> ELSE X

\* removing from port k of S (reference z) the line l at frequency f (in Hz):
\* the voltage and current inside follow from those outside over a length -L
Removed(S, z, l, k, f) ==
  LET rel == RelOfS(S, z)
      z0 == Num(l.z) w == COmega(f)
      v == CMul(CLight, Num(l.vr))
      zz == CAdd(Num(l.r), CDiv(CMul(CMul(CJ, w), z0), v))
      yy == CDiv(CMul(CJ, w), CMul(z0, v))
      zc == CSqrt(CDiv(zz, yy))
      gl == CNeg(CMul(CSqrt(CMul(zz, yy)), Num(l.L)))
      ch == CCosh(gl) sh == CSinh(gl)
      P == rel[1] Q == rel[2]
      N == << [r \in 1..Len(P) |-> [P[r] EXCEPT ![k] = CSub(CMul(P[r][k], ch), CDiv(CMul(Q[r][k], sh), zc))]],
              [r \in 1..Len(P) |-> [Q[r] EXCEPT ![k] = CSub(CMul(Q[r][k], ch), CMul(CMul(P[r][k], sh), zc))]] >>
  IN SOfRel(N, z)
IdxIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RemovedAll(o, S, lines, f) ==
  IF S = <<>> THEN <<>>
  ELSE LET X == FoldLeft(LAMBDA T, l : IF Wild(T) THEN <<>> ELSE Removed(T, o.z, l, IdxIn(o.ports, l.p), f), S, lines)
       IN IF Wild(X) THEN <<>> ELSE X

-----------------------------------------------------------------------------
\* interpolation
Wrap(a) == CSub(a, CMul(CTwoPi, CFloor(CAdd(CDiv(a, CTwoPi), CHalf(C1)))))
RECURSIVE Unwrap(_)
Unwrap(as) == IF Len(as) <= 1 THEN as
              ELSE LET u == Unwrap(Front(as)) IN
                   Append(u, CAdd(Last(u), Wrap(CSub(Last(as), as[Len(as) - 1]))))
\* an ambiguous turn by half a period
Half(as) == \E i \in 1..(Len(as) - 1) : CLe(CStr("3.14158"), CAbs(Wrap(CSub(as[i + 1], as[i]))))
MinI(a, b) == IF a <= b THEN a ELSE b
Flat(S) == [i \in 1..Len(S) * Len(S) |-> S[((i - 1) \div Len(S)) + 1][((i - 1) % Len(S)) + 1]]
Square(v, n) == [r \in 1..n |-> [c \in 1..n |-> v[(r - 1) * n + c]]]
\* two frequencies so near each other that a curve through both is a matter of rounding
Tight(xs) == \E i \in 1..(Len(xs) - 1) : CLe(CSub(xs[i + 1], xs[i]), CMul(CStr("1e-4"), CSub(xs[Len(xs)], xs[1])))
\* S at f (units of the table), <<>> when not judged
At(o, f) ==
  LET T == Sorted(o.tab)
      m == Len(T)
      hit == {i \in 1..m : CEq(T[i].f, f)}
      n == Len(o.ports)
      xs == [i \in 1..m |-> T[i].f]
      k == MinI(o.kind, m - 1)
      Y == TLCEval([i \in 1..m |-> Flat(T[i].S)])
      N == n * n
      ph == TLCEval([c \in 1..N |-> Unwrap([i \in 1..m |-> CArg(Y[i][c])])])
      mag(x) == IF o.mode = "dB" THEN CLog(CAbs(x)) ELSE CAbs(x)
      polar == [i \in 1..m |-> [c \in 1..(2 * N) |-> IF c <= N THEN mag(Y[i][c]) ELSE ph[c - N][i]]]
      iv(rows) == TLCEval(SplineAt(xs, rows, k, f))
  IN IF hit # {} THEN T[CHOOSE i \in hit : TRUE].S
     ELSE IF ~AllGood(T) \/ n = 0 THEN <<>>
     ELSE IF m = 1 THEN T[1].S
     ELSE IF k > 1 /\ Tight(xs) THEN <<>>
     ELSE LET X == IF o.mode = "RI" THEN Square(iv(Y), n)
                   ELSE IF \E i \in 1..m, c \in 1..N : CLe(CAbs(Y[i][c]), CStr("1e-6")) THEN <<>>
                   ELSE IF \E c \in 1..N : Half([i \in 1..m |-> CArg(Y[i][c])]) THEN <<>>
                   ELSE LET w == iv(polar)
                            r(c) == IF o.mode = "dB" THEN (IF CLe(CAbs(w[c]), CInt(4)) THEN CExp(w[c]) ELSE CNaN) ELSE w[c]
                            V == [c \in 1..N |-> CMul(r(c), CExp(CMul(CJ, w[c + N])))]
                        IN IF \E c \in 1..N : CIsNaN(V[c]) THEN <<>> ELSE Square(V, n)
          IN IF Wild(X) THEN <<>> ELSE X
Exactly(o, f) == \E i \in 1..Len(o.tab) : CEq(o.tab[i].f, f) /\ o.tab[i].ex
Outside(o, f) == Len(o.tab) >= 2 /\ ~(\E i, j \in 1..Len(o.tab) : CLe(o.tab[i].f, f) /\ CLe(f, o.tab[j].f))
Tol(X) == CMul(CStr("1e-8"), CAdd(C1, CMMax(X)))

ChkS(o, ev) ==
  LET fs == [i \in 1..Len(ev.fq) |-> Num(ev.fq[i])]
      n == Len(fs)
      zq == Num(ev.zq)
      np == Len(o.ports)
      out == \E i \in 1..n : Outside(o, fs[i])
      okshape == IF ev.form = "one" THEN ev.res.shape = <<np, np>> ELSE ev.res.shape = <<n, np, np>>
      bad(i) == LET X0 == At(o, fs[i])
                    X == ConvS(X0, o.z, zq)
                    S == CMat(ev.res.S[i])
                IN X # <<>> /\ IF Exactly(o, fs[i]) /\ CEq(zq, o.z) /\ ~ev.conv THEN ~CMClose(S, X, C0)
                               ELSE ~CMClose(S, X, Tol(X))
  IN IF ~o.extr /\ out THEN IF ev.out = "ok" THEN {"noexc"} ELSE {}
     ELSE IF ev.out = "exc" THEN IF ev.conv /\ ~o.extr THEN {} ELSE {"exc"}
     ELSE IF ~okshape \/ Len(ev.res.S) # n THEN {"shape"}
     ELSE IF \E i \in 1..n : bad(i) THEN {"S"} ELSE {}
ChkTable(o, ev) ==
  IF ev.out = "exc" THEN {"exc"}
  ELSE LET n == Len(o.tab) e == ev.res.ent IN
       IF ev.res.dims # <<n, n>> \/ Len(e) # n THEN {"table"}
       ELSE IF \A i \in 1..n : \E j \in 1..n : CEq(Num(e[j].f), o.tab[i].f)
                 /\ (o.tab[i].S = <<>> \/ CMClose(CMat(e[j].S), o.tab[i].S, IF o.tab[i].ex THEN C0 ELSE Tol(o.tab[i].S)))
            THEN {} ELSE {"table"}
ChkMaxV(o, ev) ==
  LET X == ConvS(At(o, Num(ev.fq)), o.z, Num(ev.zq))
      a == [i \in 1..Len(ev.a) |-> CPair(ev.a[i])]
      b == CMVec(X, a)
      av == TLCEval([i \in 1..Len(a) |-> CAbs(CAdd(a[i], b[i]))])
      m == FoldSeq(LAMBDA x, y : CMax2(x, y), C0, av)
      near(x) == CClose(x, m, CMul(CStr("1e-7"), CAdd(C1, m)))
  IN IF X = <<>> THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE (IF near(Num(ev.res.v)) THEN {} ELSE {"max"})
          \cup (IF \E i \in 1..Len(a) : o.ports[i] = ev.res.port /\ ev.res.where = "me." \o o.ports[i] /\ near(av[i])
                THEN {} ELSE {"where"})

\* did: how the object came to what it is; two objects that went the same way
\* are equal, two that hold (visibly) different things are not
Differ(o, p) ==
  \/ o.ports # p.ports \/ Len(o.tab) # Len(p.tab) \/ ~CEq(o.z, p.z)
  \/ LET T == Sorted(o.tab) U == Sorted(p.tab) IN
     \E i \in 1..MinI(Len(T), Len(U)) : T[i].S # <<>> /\ U[i].S # <<>> /\ Len(T[i].S) = Len(U[i].S)
        /\ ~CMClose(T[i].S, U[i].S, CMul(CStr("1e-3"), CAdd(C1, CMMax(U[i].S))))
ChkRep(o, ev) ==
  LET X == CMat(ev.X)
      S == SOfRel(IF ev.rep = "Z" THEN RelOfZ(X) ELSE RelOfY(X), o.z)
  IN IF ev.out = "exc" THEN {"exc"}
     ELSE IF ev.res.shape # <<Len(X), Len(X)>> THEN {"shape"}
     ELSE IF Wild(S) \/ CMClose(CMat(ev.res.S[1]), S, Tol(S)) THEN {} ELSE {"S"}
ChkEq(o, p, ev) ==
  IF ev.out = "exc" THEN {"exc"}
  ELSE IF ev.res.other \/ ev.res.eq # ev.res.back \/ ev.res.eq = ev.res.ne THEN {"equal"}
  ELSE IF o.did = p.did THEN IF ev.res.eq THEN {} ELSE {"equal"}
  ELSE IF Differ(o, p) /\ ev.res.eq THEN {"equal"} ELSE {}

-----------------------------------------------------------------------------
KindOf(k) == CASE k \in {"default", "k3only"} -> 3 [] k = "1" -> 1 [] k = "2" -> 2 [] k = "3" -> 3 [] OTHER -> 5
Zeros(n) == [i \in 1..n |-> "0.0"]
Snap(ev, id) == ev.snap[CHOOSE k \in 1..Len(ev.snap) : ev.snap[k].o = id]
\* names nobody chose: any distinct ones
Chosen(ev, id, given, n) ==
  IF given # <<>> \/ n = 0 THEN given
  ELSE LET s == Snap(ev, id) IN IF "ports" \in DOMAIN s THEN s.ports ELSE <<>>
New(ev) ==
  LET n == IF ev.how = "noports" THEN 0 ELSE ev.n
      ps == Chosen(ev, ev.nid, ev.ports, n)
      z == IF ev.zbase = "" THEN defs.z ELSE Num(ev.zbase)
  IN [ports |-> ps, xpos |-> IF ev.gxp # <<>> THEN ev.gxp ELSE Zeros(n), z |-> z,
      mode |-> IF ev.mode = "default" THEN defs.mode ELSE ev.mode, kind |-> IF ev.kind = "default" THEN defs.kind ELSE KindOf(ev.kind), extr |-> ev.kind # "k3only",
      unit |-> Num(ev.unitf),
      tab |-> TLCEval([i \in 1..Len(ev.src) |->
               [f |-> Num(ev.src[i].f), ex |-> ev.how = "matrix",
                S |-> IF ev.src[i].z = <<>> THEN CMat(ev.src[i].S) ELSE FromFile(CMat(ev.src[i].S), ev.src[i].z, z)]]),
      tsf |-> ev.how = "tsf", cop |-> FALSE, de |-> FALSE, ref |-> FALSE,
      did |-> <<ev.nid>>, last |-> <<>>]
Perm(o, order) ==
  LET rest == SelectSeq(o.ports, LAMBDA p : p \notin Range(order))
      np == order \o rest
      ix == [k \in 1..Len(np) |-> IdxIn(o.ports, np[k])]
  IN [o EXCEPT !.ports = np, !.xpos = [k \in 1..Len(np) |-> o.xpos[ix[k]]],
      !.tab = [i \in 1..Len(o.tab) |-> [o.tab[i] EXCEPT !.S =
                 IF @ = <<>> THEN <<>> ELSE [r \in 1..Len(np) |-> [c \in 1..Len(np) |-> o.tab[i].S[ix[r]][ix[c]]]]]]]
Put(o, ev) ==
  LET ps == IF o.ports # <<>> THEN o.ports ELSE Chosen(ev, ev.o, ev.pn, ev.n)
  IN [o EXCEPT !.ports = ps, !.xpos = IF o.ports = <<>> THEN Zeros(ev.n) ELSE @,
      !.tab = PutAll(@, [i \in 1..Len(ev.ent) |-> Ent(ev.ent[i])])]
Step(o, ev) ==
  CASE ev.k = "put" -> Put(o, ev)
    [] ev.k = "item" -> [o EXCEPT !.tab = PutAll(SelectSeq(@, LAMBDA x : ~CEq(x.f, Num(ev.old))), <<Ent(ev.ent[1])>>)]
    [] ev.k = "sort" -> Perm(o, ev.order)
    [] ev.k = "conv" -> LET z == Num(ev.zn) IN
         [o EXCEPT !.z = z, !.tab = [i \in 1..Len(@) |->
            IF CEq(z, o.z) THEN [@[i] EXCEPT !.ex = FALSE] ELSE [@[i] EXCEPT !.ex = FALSE, !.S = ConvS(@, o.z, z)]]]
    [] ev.k = "deembed" ->
         [o EXCEPT !.de = TRUE, !.tab = [i \in 1..Len(@) |->
            [@[i] EXCEPT !.ex = FALSE, !.S = RemovedAll(o, @, ev.lines, CMul(o.unit, o.tab[i].f))]]]
    [] ev.k = "bad" -> [o EXCEPT !.ref = TRUE]
    [] ev.k = "getS" -> [o EXCEPT !.last = IF ev.out = "ok" THEN <<CMul(o.unit, Num(ev.fq[Len(ev.fq)]))>> ELSE @]
    [] ev.k = "maxV" -> [o EXCEPT !.last = IF ev.out = "ok" THEN <<CMul(o.unit, Num(ev.fq))>> ELSE @]
    [] OTHER -> o
After(ev) ==
  CASE ev.k = "new" -> Append(objs, New(ev))
    [] ev.k = "copy" -> Append([objs EXCEPT ![ev.o].cop = TRUE], [objs[ev.o] EXCEPT !.cop = TRUE])
    [] ev.k \in {"bad", "getS", "maxV"} -> [objs EXCEPT ![ev.o] = Step(@, ev)]
    [] ev.k \in {"put", "item", "sort", "conv", "deembed"} -> [objs EXCEPT ![ev.o] = [Step(@, ev) EXCEPT !.did = Append(@, 1000 + ei)]]
    [] OTHER -> objs

\* what a printed object shows: ports, how many frequencies, where (in Hz) it was evaluated last
ChkStr(o, ev) ==
  IF ev.out = "exc" THEN {"text"}
  ELSE IF ev.res.ports # o.ports \/ ev.res.nf # Len(o.tab) THEN {"text"}
  ELSE IF Len(ev.res.last) # Len(o.last) THEN {"text"}
  ELSE IF o.last = <<>> THEN {}
  ELSE IF CClose(Num(ev.res.last[1]), o.last[1], CAdd(CStr("0.06"), CMul(CStr("1e-9"), CAbs(o.last[1])))) THEN {} ELSE {"text"}

SnapOK(os, sn) ==
  Len(sn) = Len(os) /\ \A k \in 1..Len(os) :
   LET s == sn[k] o == os[k] IN
     /\ s.o = k /\ "ports" \in DOMAIN s
     /\ s.ports = o.ports /\ IsInjective(s.ports) /\ s.N = Len(o.ports) /\ s.len = Len(o.ports) /\ s.nf = Len(o.tab)
     /\ CEq(Num(s.zb), o.z)
     /\ Len(s.xpos) = Len(o.xpos) /\ \A i \in 1..Len(o.xpos) : CEq(Num(s.xpos[i]), Num(o.xpos[i]))

Clauses(ev) ==
  (CASE ev.k \in {"new", "copy", "put", "item", "sort", "conv", "deembed"} -> IF ev.out = "exc" THEN {"exc"} ELSE {}
     [] ev.k = "getS" -> ChkS(objs[ev.o], ev)
     [] ev.k = "table" -> ChkTable(objs[ev.o], ev)
     [] ev.k = "maxV" -> ChkMaxV(objs[ev.o], ev)
     [] ev.k = "str" -> ChkStr(objs[ev.o], ev)
     [] ev.k = "rep" -> ChkRep(objs[ev.o], ev)
     [] ev.k = "eq" -> ChkEq(objs[ev.o], objs[ev.p], ev)
     [] ev.k \in {"bad", "badnew"} -> IF ev.out = "ok" THEN {"noexc"} ELSE {}
     [] OTHER -> {})
  \cup (IF ev.out = "exc" /\ ev.k \in {"new", "copy", "put", "item", "sort", "conv", "deembed"} THEN {}
        ELSE IF SnapOK(After(ev), ev.snap) THEN {} ELSE {"snap"})
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut", "snap"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})

Hist(o) == (IF o.cop THEN {"C08"} ELSE {}) \cup (IF o.ref THEN {"C11"} ELSE {}) \cup (IF o.de THEN {"C19"} ELSE {})
           \cup (IF o.tsf THEN {"C15"} ELSE {})
Props(cl, ev, variant) ==
  CASE cl = "mut" -> {"C12"} [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "noexc" /\ ev.k \in {"bad", "badnew"} -> {"C11"}
    [] cl = "shape" /\ ev.k = "getS" -> {"C13", "C25"}
    [] cl \in {"max", "where"} -> {"C21"} \cup Hist(objs[ev.o])
    [] cl = "snap" /\ ev.k = "bad" -> {"C11"}
    [] cl = "snap" /\ ev.k = "copy" -> {"C08"}
    [] cl = "exc" /\ ev.k = "copy" -> {"C08"}
    [] cl = "exc" /\ ev.k = "deembed" -> {"C19"}
    [] ev.k = "maxV" -> {"C21", "C13"}
    [] ev.k = "eq" -> {"C08"}
    [] cl = "text" -> {"C28"} \cup Hist(objs[ev.o])
    [] ev.k = "rep" -> {"C06"} \cup Hist(objs[ev.o])
    [] ev.k = "getS" -> {"C13"} \cup Hist(objs[ev.o]) \cup (IF ev.form # "one" THEN {"C25"} ELSE {})
    [] "o" \in DOMAIN ev -> {"C13"} \cup Hist(objs[ev.o])
    [] OTHER -> {"C13"}

Usual == [z |-> CInt(50), mode |-> "MA", kind |-> 3]
Init == ti \in 1..Len(Traces) /\ ei = 1 /\ objs = <<>> /\ defs = Usual
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == TLCEval(Clauses(ev))
     IN IF cls = {} THEN ei' = ei + 1 /\ ti' = ti /\ objs' = TLCEval(After(ev))
             /\ defs' = IF ev.k = "defaults" THEN [z |-> Num(ev.z), mode |-> ev.mode, kind |-> KindOf(ev.kind)] ELSE defs
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, ev, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ ti' = ti /\ objs' = <<>> /\ defs' = defs
Spec == Init /\ [][Next]_<<ti, ei, objs, defs>>
=============================================================================
