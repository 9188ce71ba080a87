------------------------------ MODULE CircTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of pyRFtk circuits against Circuit.tla.      *)
(*                                                                         *)
(* Each line of the input file is one behaviour: a list of events, an      *)
(* event being an operation with its concrete arguments and what the       *)
(* library did (outcome, result, and the ports and positions of every      *)
(* object held afterwards).  The machine runs the specification alongside  *)
(* and, at each event, collects the clauses the library fails.  Verdicts   *)
(* are total: a failing clause is reported (with the properties it bears   *)
(* on) and the behaviour is abandoned; nothing ever becomes a TLC error.   *)
(***************************************************************************)
EXTENDS Gtl, Power, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, heap, ctx

Ctx0 == [queried |-> FALSE, set |-> FALSE, repl |-> FALSE, copied |-> FALSE, refused |-> FALSE,
         deemb |-> FALSE, gtl |-> FALSE, poschg |-> FALSE, term |-> FALSE, log |-> FALSE]

-----------------------------------------------------------------------------
TolS(S) == CMul(CStr("2e-7"), CAdd(C1, CMMax(S)))
Big(S) == ~CLe(CMMax(S), CStr("1e4"))     \* nearly singular: no statement
RefZ(h, o, zb) == IF zb = "" THEN Num(h[o].zb) ELSE Num(zb)
ZOf(h, o, zb) == Num(IF zb = "" THEN h[o].zb ELSE zb)

\* is S the expected matrix with its ports permuted?
PermutedS(S, X) ==
  LET n == Len(X) IN
  n <= 4 /\ n >= 2 /\ Len(S) = n /\
  \E q \in Permutations(1..n) :
     CMClose(S, [i \in 1..n |-> [j \in 1..n |-> X[q[i]][q[j]]]], TolS(X))

\* the heap a query sees: parameters passed with the call are set first
ParamSet(h, ev) ==
  IF ev.k # "getS" \/ ev.par = <<>> THEN h
  ELSE LET b == ev.par[1][1] IN
       IF b = "" THEN [h EXCEPT ![ev.o] = SetLeaf(@, ev.par[1][2])]
       ELSE LET x == h[ev.o].blocks[BlkIdx(h[ev.o], b)].obj
            IN [h EXCEPT ![x] = SetLeaf(@, ev.par[1][2])]

\* with the flag sNp off, or asked for the model, attached tables are not looked at
ModelOnly(ev) == ev.k = "getS" /\ (ev.gtl \/ <<"sNp", "F">> \in Range1(ev.fl))
Seen(h, ev) == IF ModelOnly(ev) THEN NoTables(h) ELSE h

\* properties of the leaves a circuit consists of
LeavesOf(h, o) == {x \in Reach(h, o) : h[x].t = "leaf"}
CircsOf(h, o) == {x \in Reach(h, o) : h[x].t = "circ"}
\* terminations: passive, lossless?
TermPassive(cc) == \A k \in 1..Len(cc.tm) :
   LET t == cc.tm[k] v == CPair(t.v) IN
   IF t.k = "RC" THEN CLe(CAbs(v), C1) ELSE CLe(C0, CRe(v))
TermLossless(cc) == \A k \in 1..Len(cc.tm) :
   LET t == cc.tm[k] v == CPair(t.v) IN
   IF t.k = "RC" THEN CClose(CAbs(v), C1, CStr("1e-12"))
   ELSE CLe(CAbs(CRe(v)), CStr("1e-13"))
AllPassive(h, o) == ~Tabled(h, o) /\ \A x \in CircsOf(h, o) : TermPassive(h[x]) /\ h[x].de = <<>>
\* (the parameters of these may have been set since)
LeafLossless(x) ==
  CASE x.kind = "rlc" -> IsZeroT(x.p.Rs) /\ x.p.Rp = Inf
    [] x.kind = "trl" -> CEq(FOr(x.p, "rTL", C0), C0) /\ CEq(FOr(x.p, "gTL", C0), C0)
                         /\ ~HasF(x.p, "rsk")
    [] x.kind \in {"cpl", "arc"} -> TRUE
    [] OTHER -> x.ll
AllLossless(h, o) == ~Tabled(h, o) /\ (\A x \in LeavesOf(h, o) : LeafLossless(h[x]))
                     /\ (\A x \in CircsOf(h, o) : TermLossless(h[x]) /\ h[x].de = <<>>)
AllRecip(h, o) == ~Tabled(h, o) /\ (\A x \in LeavesOf(h, o) : h[x].rec)
                  /\ (\A x \in CircsOf(h, o) : h[x].de = <<>>)


-----------------------------------------------------------------------------
\* clauses for each query: a set of clause names that fail
ChkGetS(h0, ev) ==
  LET h == Seen(ParamSet(h0, ev), ev)
      n == Len(ev.fs)
      z == ZOf(h, ev.o, ev.zb)
      X == TLCEval([i \in 1..n |-> ObjS(h, ev.o, ev.fs[i], z)])
      np == ObjNp(h[ev.o])
      det == \A i \in 1..n : X[i] # <<>> /\ ~Big(X[i])
      S == TLCEval([i \in 1..Len(ev.res.S) |-> CMat(ev.res.S[i])])
      okshape == IF ev.vec = "one" THEN ev.res.shape = <<np, np>>
                 ELSE ev.res.shape = <<n, np, np>>
      bad == {i \in 1..n : ~CMClose(S[i], X[i], TolS(X[i]))}
  IN IF ~det THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF ~okshape \/ Len(S) # n THEN {"shape"}
     ELSE (IF bad # {} THEN {"S"} ELSE {})
          \cup (IF bad # {} /\ \E i \in bad : PermutedS(S[i], X[i]) THEN {"order"} ELSE {})
          \cup (IF ev.vec # "one" /\ ev.res.arr # "T" THEN {"arr"} ELSE {})
          \cup (IF AllPassive(h, ev.o) /\ \E i \in 1..n : ~PowerOK(S[i]) THEN {"passive"} ELSE {})
          \cup (IF AllLossless(h, ev.o) /\ \E i \in 1..n : ~UnitaryOK(S[i]) THEN {"lossless"} ELSE {})
          \cup (IF AllRecip(h, ev.o) /\ \E i \in 1..n : ~SymmetricOK(S[i]) THEN {"recip"} ELSE {})

\* excitation of circuit c: waves in the order of its ports
ExcOf(h, c, E) ==
  LET ext == ExtOrder(h[c]) IN
  TLCEval([i \in 1..Len(ext) |-> CPair(E[CHOOSE j \in 1..Len(E) : E[j][1] = ext[i]][2])])
Excited(h, ev) ==
  LET z == ZOf(h, ev.c, ev.zb)
      X == ObjS(h, ev.c, ev.f, z)
      a == ExcOf(h, ev.c, ev.E)
      vi == PortVI(X, a, z)
  IN IF X = <<>> THEN <<>> ELSE IF Big(X) THEN <<>> ELSE vi

VTol == CStr("1e-5")
ChkSolution(h, ev) ==
  LET vi == Excited(h, ev)
      z == ZOf(h, ev.c, ev.zb)
      sol == ev.res.sol
      exp == AllVI(h, ev.c, ev.f, vi[1], vi[2], "")
      top == Range1(Points(h[ev.c]))
      must == CASE ev.sel = "all" -> DOMAIN exp
                [] ev.sel = "none" -> top
                [] OTHER -> top \cup {n \in Range1(ev.nodes) : n \in DOMAIN exp}
      good(k) == LET v == CPair(sol[k][1]) i == CPair(sol[k][2])
                     f == CPair(sol[k][3]) r == CPair(sol[k][4])
                     V == exp[k][1] I == exp[k][2]
                     tol == CMul(VTol, CAdd(C1, CAbs(V)))
                 IN /\ CClose(v, V, tol)
                    /\ CClose(CMul(Z50, i), CMul(Z50, I), CMul(VTol, CAdd(C1, CMul(Z50, CAbs(I)))))
                    /\ CClose(f, CHalf(CAdd(V, CMul(z, I))), CMul(VTol, CAdd(C1, CAdd(CAbs(V), CAbs(CMul(z, I))))))
                    /\ CClose(r, CHalf(CSub(V, CMul(z, I))), CMul(VTol, CAdd(C1, CAdd(CAbs(V), CAbs(CMul(z, I))))))
      big == \E k \in DOMAIN exp : ~CLe(CAbs(exp[k][1]), CStr("1e5"))
      \* power: what enters the circuit is what its blocks and terminations absorb
      re(v, i) == CRe(CMul(CPair(v), CConj(CPair(i))))
      pin == CSumSeq([k \in 1..Len(ExtOrder(h[ev.c])) |->
                LET p == ExtOrder(h[ev.c])[k] IN re(sol[p][1], sol[p][2])])
      cc == h[ev.c]
      \* at a terminated point the current into it comes from the load: power into
      \* the load is -Re(V I*)
      pblk == CSumSeq([k \in 1..Len(cc.blocks) |->
                LET bp == BlkPts(cc.blocks[k]) IN
                CSumSeq([i \in 1..Len(bp) |-> re(sol[bp[i]][1], sol[bp[i]][2])])])
      pterm == CSumSeq([k \in 1..Len(cc.tm) |->
                CNeg(re(sol[cc.tm[k].pt][1], sol[cc.tm[k].pt][2]))])
      blkneg == \E k \in 1..Len(cc.blocks) :
                  LET bp == BlkPts(cc.blocks[k]) IN
                  ~CLe(CNeg(VTol), CSumSeq([i \in 1..Len(bp) |-> re(sol[bp[i]][1], sol[bp[i]][2])]))
      plev == CAdd(C1, CSumSeq([k \in 1..Len(ev.E) |-> CSq(CAbs(CPair(ev.E[k][2])))]))
  IN IF vi = <<>> THEN {}
     ELSE IF exp = <<>> \/ big THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF ~(must \subseteq DOMAIN sol) \/ ~(DOMAIN sol \subseteq DOMAIN exp) THEN {"soldom"}
     ELSE IF \E k \in DOMAIN sol : Len(exp[k]) = 2 /\ ~good(k) THEN {"sol"}
     ELSE IF cc.de # <<>> THEN {}
     ELSE (IF ~CClose(pin, CAdd(pblk, pterm), CMul(CStr("1e-5"), plev)) THEN {"power"} ELSE {})
          \cup (IF AllPassive(h, ev.c) /\ blkneg THEN {"power"} ELSE {})

\* the tree of node and line voltages: path -> <<kind, ...>>
LeafLine(h, b, vs, is, f, base) ==
  LET ob == h[b.obj] IN
  [k |-> ob.kind, b |-> b, vs |-> vs, is |-> is, base |-> base]
RECURSIVE Tree(_, _, _, _, _, _, _)
Tree(h, c, f, vs, is, pre, base) ==
  LET cc == h[c]
      m == PointVI(h, c, f, vs, is)
      here == TLCEval([k \in {pre \o p : p \in DOMAIN m} |->
                 LET p == CHOOSE p \in DOMAIN m : pre \o p = k IN
                 [k |-> "node", v |-> CAbs(m[p][1]), pos |-> AddPos(base, PointPos(h, c, p))]])
      blk(k) ==
        LET b == cc.blocks[k]
            ob == h[b.obj]
            bp == BlkPts(b)
            bv == TLCEval([i \in 1..Len(bp) |-> m[bp[i]][1]])
            bi == TLCEval([i \in 1..Len(bp) |-> m[bp[i]][2]])
            bb == AddPos(base, <<b.rp>>)
        IN IF ob.t = "circ" THEN Tree(h, b.obj, f, bv, bi, pre \o b.nm \o "/", bb)
           ELSE CASE ob.kind = "trl" ->
                       (pre \o b.nm) :> [k |-> "trl", o |-> b.obj, v |-> bv, i |-> bi,
                                         pos |-> AddPos(bb, ob.xpos[1]), pos2 |-> AddPos(bb, ob.xpos[2])]
                  [] ob.kind = "rlc" ->
                       (pre \o b.nm) :> [k |-> "ports", v |-> bv, pos |-> AddPos(bb, ob.xpos[1])]
                  [] ob.kind = "tab" ->
                       (pre \o b.nm) :> [k |-> "max", v |-> bv, pos |-> AddPos(bb, ob.xpos[1])]
                  [] ob.kind \in {"base", "cpl", "arc"} ->
                       TLCEval([q \in {pre \o b.nm \o "/" \o ob.ports[i] : i \in 1..ob.np} |->
                          [k |-> "val",
                           v |-> CAbs(bv[CHOOSE i \in 1..ob.np : pre \o b.nm \o "/" \o ob.ports[i] = q])]])
                  [] OTHER -> <<>>
      RECURSIVE go(_)
      go(k) == IF k > Len(cc.blocks) THEN here ELSE blk(k) @@ go(k + 1)
  IN IF m = <<>> THEN <<>> ELSE go(1)

\* scaleVSW: a tree of voltages, every voltage (and nothing else) multiplied
Scaled(a, b, s) ==
  Len(a) = Len(b) /\ \A k \in 1..Len(a) :
     /\ a[k].path = b[k].path /\ a[k].t = b[k].t /\ a[k].n = b[k].n /\ a[k].nv = b[k].nv
     /\ a[k].xs = b[k].xs
     /\ \A i \in 1..Len(a[k].vs) :
          LET w == CMul(s, Num(a[k].vs[i])) IN
          CClose(Num(b[k].vs[i]), w, CAdd(CMul(CStr("1e-12"), CAbs(w)), CStr("1e-300")))

ChkMaxV(h, ev, cx) ==
  LET vi == Excited(h, ev)
      \* (parameters given at addblock are set by the evaluation)
      exp == Tree(Evaluated(h, ev.c), ev.c, ev.f, vi[1], vi[2], "", <<"0.0">>)
      ents == ev.res.ents
      tol(v) == CMul(VTol, CAdd(C1, v))
      E(k) == exp[ents[k].path]
      lev == \* the exact largest |V| over nodes and port values
             LET RECURSIVE go(_, _)
                 go(S, acc) == IF S = {} THEN acc
                   ELSE LET q == CHOOSE q \in S : TRUE IN
                        go(S \ {q}, IF exp[q].k \in {"node", "val"} THEN CMax2(acc, exp[q].v) ELSE acc)
             IN go(DOMAIN exp, C0)
      vbad(k) ==
        LET e == ents[k] x == E(k) IN
        CASE x.k = "node" -> Len(e.vs) # 1 \/ ~CClose(Num(e.vs[1]), x.v, tol(x.v))
          [] x.k = "val" -> Len(e.vs) # 1 \/ ~CClose(Num(e.vs[1]), x.v, tol(x.v))
          [] x.k = "ports" -> Len(e.vs) # Len(x.v)
                \/ \E i \in 1..Len(x.v) : ~CClose(Num(e.vs[i]), CAbs(x.v[i]), tol(CAbs(x.v[i])))
          [] x.k = "max" -> LET mx == FoldSeq(LAMBDA w, a : CMax2(a, CAbs(w)), C0, x.v) IN
                            Len(e.vs) # 1 \/ ~CClose(Num(e.vs[1]), mx, tol(mx))
          [] x.k = "trl" ->
               LET n == Len(e.xs)
                   ob == Evaluated(h, ev.c)[x.o]
                   zz == LineZ(ob.p, Num(ev.f)) yy == LineY(ob.p, Num(ev.f))
                   L == Num(ob.p.L)
                   x0 == Num(e.xs[1]) x1 == Num(e.xs[n])
                   at(i) == IF CLe(CAbs(CSub(x1, x0)), CStr("1e-12")) THEN C0
                            ELSE CMul(L, CDiv(CSub(Num(e.xs[i]), x0), CSub(x1, x0)))
               IN n < 2 \/ e.n # e.nv \/ Len(e.vs) # n
                  \/ ~CClose(CSub(x1, x0), L, CStr("1e-6"))
                  \/ \E i \in 1..n : LET w == CAbs(LineV(zz, yy, at(i), x.v[1], x.i[1])) IN
                                      ~CClose(Num(e.vs[i]), w, tol(w))
      pbad(k) ==
        LET e == ents[k] x == E(k) IN
        IF x.k \in {"val", "max"} THEN FALSE      \* no position is given for these
        ELSE IF x.pos = <<"?">> THEN FALSE
        ELSE IF x.k = "trl" THEN
               ~CClose(Num(e.xs[1]), PosVal(x.pos), CStr("1e-9"))
               \/ ~CClose(Num(e.xs[Len(e.xs)]), PosVal(x.pos2), CStr("1e-9"))
        ELSE \E i \in 1..Len(e.xs) : ~CClose(Num(e.xs[i]), PosVal(x.pos), CStr("1e-9"))
      vmax == Num(ev.res.vmax)
      lines == {k \in 1..Len(ents) : ents[k].t = "line"}
      over == FoldSet(LAMBDA k, a : CMax2(a, Num(ents[k].vmax)), lev, 1..Len(ents))
      near(k) == CLe(CMul(CStr("0.99"), vmax), Num(ents[k].vmax))
      wp == Range1(ev.res.wparts)
  IN IF vi = <<>> THEN {}
     ELSE IF exp = <<>> THEN {}
     ELSE IF ~CLe(lev, CStr("1e5")) THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF {ents[k].path : k \in 1..Len(ents)} # DOMAIN exp THEN {"treedom"}
     ELSE IF \E k \in 1..Len(ents) : vbad(k) THEN {"treeV"}
     ELSE IF ~cx.poschg /\ \E k \in 1..Len(ents) : pbad(k) THEN {"treeX"}
     ELSE (IF ~CLe(CSub(over, tol(over)), vmax) \/ ~CLe(vmax, CAdd(CMul(CStr("1.01"), over), VTol))
           THEN {"vmax"} ELSE {})
          \cup (IF ~(\E k \in 1..Len(ents) : near(k) /\ Range1(ents[k].tok) \subseteq wp)
                THEN {"where"} ELSE {})
          \cup (IF ev.Id # "" /\ ev.res.roots # <<ev.Id>> THEN {"root"} ELSE {})
          \cup (IF ev.sc # "" /\ ~Scaled(ents, ev.res.scaled, Num(ev.sc)) THEN {"scaled"} ELSE {})

ChkIntS(h, ev) ==
  LET ext == ExtOrder(h[ev.c])
      n == Len(ext)
      z == ZOf(h, ev.c, ev.zb)
      X == ObjS(h, ev.c, ev.f, z)
      sol(j) == LET a == [i \in 1..n |-> IF i = j THEN C1 ELSE C0]
                    vi == PortVI(X, a, z)
                IN AllVI(h, ev.c, ev.f, vi[1], vi[2], "")
      sols == TLCEval([j \in 1..n |-> sol(j)])
      m == Len(ev.nodes)
      rev(i) == ev.nodes[i] # ev.raw[i]
      wv(i, j, sgn) == LET x == sols[j][ev.raw[i]] IN
                       IF sgn THEN CHalf(CAdd(x[1], CMul(z, x[2]))) ELSE CHalf(CSub(x[1], CMul(z, x[2])))
      A == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> wv(i, j, ~rev(i))])])
      B == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> wv(i, j, rev(i))])])
      St == CMSolve(CMTrans(A), CMTrans(B))      \* S A = B
      S == CMTrans(St)
      \* fewer nodes than ports: the best fit of S A = B, that is S (A A^H) = B A^H
      AH == CMConjT(A)
      Gi == TLCEval(CMInv(CMMul(A, AH)))
      Sf == CMMul(CMMul(B, AH), Gi)
      Ai == CMInv(A)
  IN IF X = <<>> THEN {}
     ELSE IF \E j \in 1..n : sols[j] = <<>> THEN {}
     ELSE IF \E i \in 1..m : \E j \in 1..n : Len(sols[j][ev.raw[i]]) # 2 THEN {}
     ELSE IF m > n THEN (IF ev.out = "exc" THEN {} ELSE {"noexc"})
     ELSE IF m = 0 THEN {}
     ELSE IF m < n THEN
       (IF Gi = <<>> THEN {}
        ELSE IF ~CLe(CMMax(Gi), CStr("1e4")) \/ ~CLe(CMMax(A), CStr("1e2")) THEN {}
        ELSE IF ev.out = "exc" THEN {"exc"}
        ELSE IF ~CMClose(CMat(ev.res.S), Sf, CMul(CStr("1e-5"), CAdd(C1, CMMax(Sf)))) THEN {"intS"} ELSE {})
     ELSE IF Ai = <<>> THEN {}
     ELSE IF ~CLe(CMMax(Ai), CStr("1e4")) \/ ~CLe(CMMax(A), CStr("1e4")) THEN {}
     ELSE IF ev.out = "exc" THEN {"exc"}
     ELSE IF ~CMClose(CMat(ev.res.S), S, CMul(CStr("1e-5"), CAdd(C1, CMMax(S)))) THEN {"intS"} ELSE {}

\* Is every circuit involved well defined at its own reference impedance (where
\* the library does its arithmetic)?  If not, no statement is made.
Freqs(ev) == IF ev.k = "getS" THEN Range1(ev.fs) ELSE {ev.f}
WellPosed(h, ev) ==
  LET o == IF ev.k = "getS" THEN ev.o ELSE ev.c
      h1 == Seen(Evaluated(ParamSet(h, ev), o), ev)
  IN \A c \in CircsOf(h1, o) : \A f \in Freqs(ev) :
       LET X == ObjS(h1, c, f, Num(h1[c].zb)) N == NetX(h1, c, f) IN
       X # <<>> /\ N # <<>> /\ CLe(CMMax(X), CStr("1e4")) /\ CLe(CMMax(N), CStr("1e4"))

\* looking around: the blocks listed, the object found at a path and what it answers, positions of nodes
ChkNav(h, ev, poschg) ==
  LET x == FindObj(h, ev.c, ev.path)
      ps == BlockPaths(h, ev.c)
      held == {ev.snap[i].id : i \in 1..Len(ev.snap)}
      z == ZOf(h, x, ev.zb)
      ev2 == [k |-> "getS", o |-> x, fs |-> <<ev.f>>, par |-> <<>>, gtl |-> FALSE, fl |-> <<>>]
      \* (an array is found as it is)
      X == IF h[x].t = "leaf" /\ h[x].kind = "arr" THEN CMat(h[x].tab["*"]) ELSE ObjS(h, x, ev.f, z)
      badpos == {i \in 1..Len(ev.nodes) :
                   LET q == NodePosition(h, ev.c, ev.nodes[i][1], ev.nodes[i][2])
                   IN q # <<"?">> /\ ~CClose(Num(ev.res.pos[i]), PosVal(q), CStr("1e-9"))}
  IN IF ev.out = "exc" THEN {"navexc"}
     ELSE (IF ev.res.list # [i \in 1..Len(ps) |-> Join(ps[i])] THEN {"navlist"} ELSE {})
          \cup (IF ev.res.len # Len(h[ev.c].ports) THEN {"np"} ELSE {})
          \cup (IF ~poschg /\ badpos # {} THEN {"navpos"} ELSE {})
          \cup (IF x = 0 THEN (IF ev.res.found # "none" \/ ev.res.object # "refused" THEN {"navfound"} ELSE {})
                ELSE IF ev.res.found # "object" \/ ev.res.object # "same" THEN {"navfound"}
                ELSE IF ~(h[x].t = "leaf" /\ h[x].kind = "arr")
                        /\ ev.res.mine # (IF x \in held THEN x ELSE 0) THEN {"navfound"}
                ELSE IF ~Askable(h, x) THEN {}
                ELSE IF X = <<>> \/ Big(X) THEN {}
                ELSE IF h[x].t = "circ" /\ ~WellPosed(h, ev2) THEN {}
                ELSE IF Len(ev.res.S) # Len(X) THEN {"navS"}
                ELSE IF ~CMClose(CMat(ev.res.S), X, TolS(X)) THEN {"navS"} ELSE {})

\* what a printed circuit shows: its ports, its blocks with their ports (and which of the object's ports
\* these are) and positions; blocks that are the same object are shown once
ChkShow(h, ev, poschg) ==
  IF ev.out = "exc" THEN {"show"}
  ELSE IF ev.res.what = "other" THEN {}
  ELSE LET o == h[ev.o]
           bs == o.blocks
           first(k) == CHOOSE j \in 1..k : bs[j].obj = bs[k].obj /\ \A i \in 1..(j - 1) : bs[i].obj # bs[k].obj
           uni == SelectSeq([k \in 1..Len(bs) |-> k], LAMBDA k : first(k) = k)
           dup == {<<bs[k].nm, bs[first(k)].nm>> : k \in {k \in 1..Len(bs) : first(k) # k}}
           okp == IF o.frz \/ o.pn = <<>> THEN ev.res.ports = ExtOrder(o)
                  ELSE Range1(ev.res.ports) = Range1(o.ports) /\ NoDup(ev.res.ports)
           okb(k, s) ==
             LET b == bs[k] x == h[b.obj] arr == x.t = "leaf" /\ x.kind = "arr" xs == ObjPos(x)
             IN /\ s[1] = b.nm
                /\ Len(s[2]) = Len(b.ports)
                /\ \A i \in 1..Len(s[2]) :
                     /\ s[2][i][1] = b.ports[i]
                     /\ s[2][i][2] = IF arr THEN "" ELSE ObjPorts(x)[i]
                     /\ (\/ poschg \/ xs[i] = <<"?">>
                         \/ CClose(Num(s[2][i][3]), PosVal(AddPos(<<b.rp>>, xs[i])), CStr("1e-4")))
       IN IF ~okp THEN {"show"}
          ELSE IF ev.res.what = "brief" THEN {}
          ELSE IF ev.res.what = "model"
          THEN IF \A i \in 1..Len(ev.res.ports) : LET q == PosOf(o, ev.res.ports[i]) IN
                     poschg \/ q = <<"?">> \/ CClose(Num(ev.res.blocks[i][2][1][3]), PosVal(q), CStr("1e-4"))
               THEN {} ELSE {"show"}
          ELSE IF Len(ev.res.blocks) # Len(uni) \/ \E i \in 1..Len(uni) : ~okb(uni[i], ev.res.blocks[i]) THEN {"show"}
          ELSE IF {<<ev.res.dup[i][1], ev.res.dup[i][2]>> : i \in 1..Len(ev.res.dup)} # dup THEN {"show"} ELSE {}

\* ports and positions of everything the user holds
ChkSnap(h, ev, poschg) ==
  LET bad(s) ==
        LET o == h[s.id] IN
        IF o.t = "leaf"
        THEN (IF s.np # o.np THEN {"np"} ELSE {})
             \cup (IF o.kind # "arr" /\ s.ports # o.ports THEN {"ports"} ELSE {})
             \cup (IF o.kind # "arr" /\ (Len(s.xpos) # o.np \/ \E i \in 1..Len(s.xpos) :
                       i <= o.np /\ ~CClose(Num(s.xpos[i]), PosVal(o.xpos[i]), CStr("1e-9"))) THEN {"xpos"} ELSE {})
        ELSE LET okp == IF o.frz \/ o.pn = <<>> THEN s.ports = ExtOrder(o)
                        ELSE Range1(s.ports) = Range1(o.ports) /\ NoDup(s.ports)
             IN (IF s.np # Len(o.ports) THEN {"np"} ELSE {})
                \cup (IF ~okp THEN {"ports"} ELSE
                      IF Len(s.xpos) # Len(o.ports) THEN {"xpos"} ELSE
                      IF \E i \in 1..Len(s.ports) : LET q == PosOf(o, s.ports[i]) IN
                             ~poschg /\ q # <<"?">> /\ ~CClose(Num(s.xpos[i]), PosVal(q), CStr("1e-9"))
                      THEN {"xpos"} ELSE {})
  IN UNION {bad(ev.snap[i]) : i \in 1..Len(ev.snap)}

-----------------------------------------------------------------------------
LeafOf(ev) == [t |-> "leaf", kind |-> ev.kind, np |-> ev.np, ports |-> ev.ports, xpos |-> ev.xpos,
               zb |-> ev.zb, p |-> ev.p, tab |-> ev.tab, ll |-> ev.ll, rec |-> (ev.rec \/ ev.kind \notin {"tab", "base", "arr"})]

Apply(h, ev) ==
  CASE ev.k = "leaf" -> Res(TRUE, Append(h, LeafOf(ev)))
    [] ev.k = "circ" -> Res(TRUE, Append(h, NewCirc(ev.zb, ev.pn)))
    [] ev.k = "gtl" -> GtlBuild(h, ev)
    [] ev.k = "addblock" -> AddBlock(h, ev)
    [] ev.k = "connect" -> Connect(h, ev)
    [] ev.k = "terminate" -> Terminate(h, ev)
    [] ev.k = "deembed" -> Deembed(h, ev)
    [] ev.k = "copy" -> Res(TRUE, Copy(h, ev.o).h)
    [] ev.k = "replace" -> Replace(h, ev.c, ev.path, ev.o, ev.par)
    [] ev.k = "set" -> Set(h, ev)
    [] ev.k = "getS" -> Res(TRUE, Evaluated(ParamSet(h, ev), ev.o))
    [] ev.k \in {"solution", "solve", "maxV"} -> Res(TRUE, Evaluated(h, ev.c))
    [] ev.k = "intS" -> Res(TRUE, Evaluated(h, ev.c))
    [] ev.k = "nav" -> Res(TRUE, Navigated(h, ev))
    [] ev.k = "early" -> Res(PnOK(h[ev.c]), h)
    [] OTHER -> Res(TRUE, h)

IsQuery(ev) == ev.k \in {"getS", "solution", "solve", "maxV", "intS"}
QObj(ev) == IF ev.k = "getS" THEN ev.o ELSE ev.c
QOK(h, ev) == \A x \in CircsOf(h, QObj(ev)) : PnOK(h[x]) /\ h[x].blocks # <<>> /\ h[x].ports # <<>>

\* does this step change positions the code has already recorded?
PosChange(h, ev, r) ==
  (ev.k = "set" /\ \E i \in 1..Len(ev.as) : \E j \in 1..Len(ev.as[i].av) : ev.as[i].av[j][1] = "L")
  \/ ev.k = "replace"
  \/ (ev.k = "getS" /\ ev.par # <<>>)
  \/ (ev.k = "addblock" /\ ev.par # <<>>)

Clauses(h, ev, r, cx) ==
  (IF IsQuery(ev)
   THEN IF ~QOK(h, ev) THEN {}
        \* (node voltages behind a table are not specified)
        ELSE IF ev.k # "getS" /\ Tabled(h, ev.c) THEN {}
        ELSE CASE ev.k = "getS" -> ChkGetS(h, ev)
               [] ev.k = "solution" -> ChkSolution(h, ev)
               [] ev.k = "maxV" -> ChkMaxV(h, ev, cx)
               [] ev.k = "intS" -> ChkIntS(h, ev)
               [] OTHER -> IF ev.out = "exc" /\ Excited(h, ev) # <<>> THEN {"exc"} ELSE {}
   ELSE IF ev.k = "nav" THEN ChkNav(h, ev, cx.poschg)
   ELSE IF ev.k = "show" THEN ChkShow(h, ev, cx.poschg)
   ELSE IF r.ok /\ ev.out = "exc" THEN {"exc"}
   ELSE IF ~r.ok /\ ev.out = "ok" THEN {"noexc"}
   ELSE IF ev.k = "set" /\ r.ok /\ ev.res.mod # (IF SetChanges(h, ev) THEN "T" ELSE "F") THEN {"mod"} ELSE {})
  \cup ChkSnap(r.h, ev, cx.poschg \/ PosChange(h, ev, r))
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "snap", "mut"} : ev.alt[x] # ev[x]
        THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})

\* the properties a failing clause bears on, in this history
Props(cl, ev, cx, variant) ==
  LET hist == (IF cx.queried THEN {"C02"} ELSE {}) \cup (IF cx.set THEN {"C10"} ELSE {})
              \cup (IF cx.repl THEN {"C09"} ELSE {}) \cup (IF cx.copied THEN {"C08"} ELSE {})
              \cup (IF cx.refused THEN {"C11"} ELSE {}) \cup (IF cx.deemb THEN {"C19"} ELSE {})
              \cup (IF cx.gtl THEN {"C20"} ELSE {}) \cup (IF cx.log THEN {"C23"} ELSE {})
      vec == IF ev.k = "getS" /\ ev.vec # "one" THEN {"C25"} ELSE {}
      qp == CASE ev.k = "getS" -> {"C01"} [] ev.k = "solution" -> {"C04"}
              [] ev.k = "solve" -> {"C04"} [] ev.k = "maxV" -> {"C21"} [] OTHER -> {"C24"}
  IN CASE cl = "exc" -> IF IsQuery(ev) THEN qp \cup hist \cup vec
                        ELSE CASE ev.k = "set" -> {"C10"} \cup hist
                               [] ev.k = "replace" -> {"C09"} \cup hist
                               [] ev.k = "copy" -> {"C08"} \cup hist
                               [] ev.k = "deembed" -> {"C19"} \cup hist
                               [] ev.k = "gtl" -> {"C20"}
                               [] OTHER -> {"C01", "C03"} \cup hist
       [] cl = "noexc" -> {"C11"} \cup (IF ev.k = "gtl" THEN {"C20"} ELSE {})
                                 \cup (IF ev.k = "replace" THEN {"C09"} ELSE {})
                                 \cup (IF ev.k = "intS" THEN {"C24"} ELSE {})
       [] cl = "order" -> {"C03"}
       [] cl \in {"S", "shape", "arr"} -> {"C01"} \cup hist \cup vec \cup (IF cl = "shape" THEN {"C03"} ELSE {})
       [] cl \in {"sol", "soldom"} -> {"C04"} \cup hist
       [] cl = "power" -> {"C07", "C04"}
       [] cl \in {"passive", "lossless", "recip"} -> {"C07", "C01"}
       [] cl \in {"treedom", "treeV", "treeX", "vmax", "where", "root", "scaled"} -> {"C21"} \cup (IF cl \in {"treeX", "scaled"} THEN {} ELSE hist)
       [] cl = "intS" -> {"C24"} \cup hist
       [] cl \in {"ports", "xpos", "np"} -> {"C03"} \cup hist
       [] cl \in {"navexc", "navlist", "navfound", "navS", "navpos"} -> {"C27"} \cup hist
       [] cl = "show" -> {"C28"} \cup hist
       [] cl = "mod" -> {"C10"}
       [] cl = "mut" -> {"C12"}
       [] cl = "bal" -> {"C23"}
       [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
       [] OTHER -> {}

NewCtx(cx, h, ev, r) ==
  [cx EXCEPT !.queried = @ \/ IsQuery(ev),
             !.set = @ \/ (ev.k = "set") \/ (ev.k = "getS" /\ ev.par # <<>>),
             !.repl = @ \/ ev.k = "replace",
             !.copied = @ \/ ev.k = "copy", !.refused = @ \/ ~r.ok,
             !.gtl = @ \/ ev.k = "gtl", !.deemb = @ \/ ev.k = "deembed", !.poschg = @ \/ PosChange(h, ev, r),
             !.log = @ \/ ev.k = "log"]

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ heap = <<>> /\ ctx = Ctx0

Report(t, e, ev, cls, ps) ==
  PrintT("@@" \o ToJson([id |-> Traces[t].id, ei |-> e, k |-> ev.k, cls |-> SetToSeq(cls),
                         props |-> SetToSeq(ps), exc |-> ev.exc]))
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         r == Apply(heap, ev)
         cl0 == Clauses(heap, ev, r, ctx)
         num == {"exc", "S", "sol", "power", "passive", "lossless", "recip", "treeV", "vmax", "where", "intS", "order"}
         cls == IF cl0 \cap num # {} /\ IsQuery(ev) THEN IF WellPosed(heap, ev) THEN cl0 ELSE cl0 \ num
                ELSE cl0
         ps == UNION {Props(c, ev, ctx, Traces[ti].variant) : c \in cls}
         \* a question without an answer (nothing is said about singular circuits) leaves open
         \* how far the circuits were ordered: nothing is said about what follows either
         open == IsQuery(ev) /\ ev.k # "intS" /\ r.ok /\ ev.out = "exc" /\ cls \cap num = {}
     IN IF open THEN ei' = Len(Traces[ti].ev) + 1 /\ UNCHANGED <<heap, ctx, ti>>
        ELSE IF cls = {}
        THEN /\ ei' = ei + 1 /\ heap' = r.h /\ ctx' = NewCtx(ctx, heap, ev, r) /\ ti' = ti
        ELSE /\ Report(ti, ei, ev, cls, ps)
             /\ ei' = Len(Traces[ti].ev) + 1 /\ UNCHANGED <<heap, ctx, ti>>
Spec == Init /\ [][Next]_<<ti, ei, heap, ctx>>
=============================================================================
