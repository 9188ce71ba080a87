------------------------------ MODULE Circuit -------------------------------
(***************************************************************************)
(* pyRFtk circuits: what an assembled circuit IS, what each building step  *)
(* does to it, and what every query must answer.                           *)
(*                                                                         *)
(* The state is a heap: a sequence of objects, some of which refer to      *)
(* others (a circuit's blocks), because the code shares objects by         *)
(* reference.  A leaf object is                                            *)
(*   [t: "leaf", kind, ports, xpos, zb, p, tab]                            *)
(* and a circuit is                                                        *)
(*   [t: "circ", zb, pn, blocks, jn, tm, de, ports, xp, frz]               *)
(*   blocks  << [nm, ports, obj, rp, par] >>   named uses of other objects *)
(*   jn      << [mem, new, pos] >>  junctions: old points, new point or "" *)
(*   tm      << [pt, k, v] >>    terminations (k in Z Y RC)                *)
(*   de      << [k, a, b] >>     de-embedding pairs (k in int ext)         *)
(*   ports   the external ports in order of creation, xp their positions   *)
(*   snp     <<>> or << [zb, tab] >>: an attached table that stands for the  *)
(*           whole circuit's S                                              *)
(*   gtl     read from a model file (Gtl.tla)                               *)
(*   pn      announced order (or <<>>), frz: it has been solved once       *)
(* Numbers are decimal text; a position is a sequence of texts to be added *)
(* up, or <<"?">> (no statement).                                          *)
(*                                                                         *)
(* Every point x of a circuit (a port of a block, or a created junction    *)
(* port) has a voltage V_x and a current I_x: into the block, respectively *)
(* into the junction that created it.                                      *)
(***************************************************************************)
EXTENDS Elements, SequencesExt, TLC

Range1(s) == {s[i] : i \in 1..Len(s)}
IdxOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
NoDup(s) == Cardinality(Range1(s)) = Len(s)

-----------------------------------------------------------------------------
\* structure
BlkPts(b) == [i \in 1..Len(b.ports) |-> b.nm \o "." \o b.ports[i]]
BlockPoints(cc) == Flat([k \in 1..Len(cc.blocks) |-> BlkPts(cc.blocks[k])])
NewPoints(cc) ==
  Flat([k \in 1..Len(cc.jn) |-> IF cc.jn[k].new = "" THEN <<>> ELSE <<cc.jn[k].new>>])
  \o Flat([k \in 1..Len(cc.de) |-> IF cc.de[k].k = "int" THEN <<cc.de[k].b>> ELSE <<>>])
Points(cc) == BlockPoints(cc) \o NewPoints(cc)
ConsumedPts(cc) ==
  UNION {Range1(cc.jn[k].mem) : k \in 1..Len(cc.jn)}
  \cup {cc.tm[k].pt : k \in 1..Len(cc.tm)}
  \cup {cc.de[k].a : k \in 1..Len(cc.de)}
  \cup {cc.de[k].b : k \in {j \in 1..Len(cc.de) : cc.de[j].k = "ext"}}
TermPts(cc) == {cc.tm[k].pt : k \in 1..Len(cc.tm)}
BlkNames(cc) == {cc.blocks[k].nm : k \in 1..Len(cc.blocks)}
BlkIdx(cc, nm) == CHOOSE k \in 1..Len(cc.blocks) : cc.blocks[k].nm = nm

\* the order of rows and columns of every result
ExtOrder(cc) ==
  IF cc.pn = <<>> THEN cc.ports ELSE SelectSeq(cc.pn, LAMBDA p : p \in Range1(cc.ports))
PnOK(cc) == cc.pn = <<>> \/ cc.frz
            \/ (NoDup(cc.pn) /\ Range1(cc.pn) = Range1(cc.ports))
PosOf(cc, p) == cc.xp[IdxOf(cc.ports, p)]

ObjPorts(o) == IF o.t = "leaf" THEN o.ports ELSE ExtOrder(o)
ObjNp(o) == IF o.t = "leaf" THEN o.np ELSE Len(o.ports)
ObjPos(o) == IF o.t = "leaf" THEN o.xpos ELSE [i \in 1..Len(o.ports) |-> PosOf(o, ExtOrder(o)[i])]

AddPos(a, b) == IF a = <<"?">> \/ b = <<"?">> THEN <<"?">> ELSE a \o b
PosVal(a) == CSumSeq([i \in 1..Len(a) |-> Num(a[i])])

RECURSIVE Reach(_, _)
Reach(h, o) ==
  IF h[o].t = "leaf" THEN {o}
  ELSE {o} \cup UNION {Reach(h, h[o].blocks[k].obj) : k \in 1..Len(h[o].blocks)}
UsedBy(h, o) == {c \in 1..Len(h) : h[c].t = "circ"
                 /\ \E k \in 1..Len(h[c].blocks) : h[c].blocks[k].obj = o}

-----------------------------------------------------------------------------
(* Building steps.  Each takes the heap and an operation record and returns *)
(* [ok, h]; ok = FALSE: the request is invalid and must be refused, leaving *)
(* everything as it was.                                                    *)
Res(ok, h) == [ok |-> ok, h |-> h]

NewCirc(zb, pn) == [t |-> "circ", zb |-> zb, pn |-> pn, blocks |-> <<>>, jn |-> <<>>,
                    tm |-> <<>>, de |-> <<>>, ports |-> <<>>, xp |-> <<>>, frz |-> FALSE, snp |-> <<>>, gtl |-> FALSE]

\* the names a block's ports get: pf.k in obj (own names), list, dict, num
MapName(m, x) == IF \E i \in 1..Len(m) : m[i][1] = x
                 THEN m[CHOOSE i \in 1..Len(m) : m[i][1] = x][2] ELSE x
PortNames(o, pf) ==
  LET n == ObjNp(o)  own == ObjPorts(o) IN
  CASE pf.k = "list" -> pf.l
    [] pf.k = "dict" -> [i \in 1..Len(own) |-> MapName(pf.m, own[i])]
    [] pf.k = "fmt"  -> [i \in 1..n |-> pf.s \o ToString(i)]
    [] OTHER -> IF own = <<>> THEN [i \in 1..n |-> ToString(i)] ELSE own
PortNamesOK(o, pf) ==
  LET n == ObjNp(o)  own == ObjPorts(o) IN
  CASE pf.k = "list" -> Len(pf.l) = n
    [] pf.k = "dict" -> own # <<>> /\ \A i \in 1..Len(pf.m) : pf.m[i][1] \in Range1(own)
    [] OTHER -> TRUE

AddBlock(h, op) ==
  LET cc == h[op.c]  o == h[op.o] IN
  IF op.nm \in BlkNames(cc) THEN Res(FALSE, h)
  ELSE IF ~PortNamesOK(o, op.pf) THEN Res(FALSE, h)
  ELSE LET pn == PortNames(o, op.pf)
           ps == ObjPos(o)
           b == [nm |-> op.nm, ports |-> pn, obj |-> op.o, rp |-> op.rp, par |-> op.par]
           c2 == [cc EXCEPT !.blocks = Append(@, b),
                            !.ports = @ \o BlkPts(b),
                            !.xp = @ \o [i \in 1..Len(pn) |-> AddPos(<<op.rp>>, ps[i])]]
       IN Res(TRUE, [h EXCEPT ![op.c] = c2])

\* op.pts: the arguments in order (old points and possibly one new name)
Connect(h, op) ==
  LET cc == h[op.c]
      allp == Range1(Points(cc))
      olds == SelectSeq(op.pts, LAMBDA p : p \in allp)
      news == SelectSeq(op.pts, LAMBDA p : p \notin allp)
      free == Range1(cc.ports)
  IN IF Len(news) > 1 \/ (Len(news) = 1 /\ op.dot) \/ Len(olds) = 0
        \/ ~NoDup(op.pts) \/ (\E p \in Range1(olds) : p \notin free)
     THEN Res(FALSE, h)
     ELSE LET new == IF news = <<>> THEN "" ELSE news[1]
              pos == PosOf(cc, olds[1])
              keep == [i \in 1..Len(cc.ports) |-> cc.ports[i] \notin Range1(olds)]
              ports2 == Without(cc.ports, Range1(olds))
              c2 == [cc EXCEPT !.jn = Append(@, [mem |-> olds, new |-> new, pos |-> pos]),
                       !.ports = IF new = "" THEN ports2 ELSE Append(ports2, new),
                       !.xp = [i \in 1..Len(ports2) |-> PosOf(cc, ports2[i])]
                              \o (IF new = "" THEN <<>> ELSE <<pos>>)]
          IN Res(TRUE, [h EXCEPT ![op.c] = c2])

\* op.kv: sequence of <<kind, value>>; empty means RC = 0
Terminate(h, op) ==
  LET cc == h[op.c]
      t == IF op.kv = <<>> THEN [pt |-> op.pt, k |-> "RC", v |-> <<"0.0", "0.0">>]
           ELSE [pt |-> op.pt, k |-> op.kv[1][1], v |-> op.kv[1][2]]
  IN IF Len(op.kv) > 1 \/ t.k \notin {"Z", "Y", "RC"} THEN Res(FALSE, h)
     ELSE IF op.pt \in TermPts(cc)
          THEN LET k == CHOOSE j \in 1..Len(cc.tm) : cc.tm[j].pt = op.pt
               IN Res(TRUE, [h EXCEPT ![op.c].tm[k] = t])
     ELSE IF op.pt \notin Range1(cc.ports) THEN Res(FALSE, h)
     ELSE LET ports2 == Without(cc.ports, {op.pt})
              c2 == [cc EXCEPT !.tm = Append(@, t), !.ports = ports2,
                       !.xp = [i \in 1..Len(ports2) |-> PosOf(cc, ports2[i])]]
          IN Res(TRUE, [h EXCEPT ![op.c] = c2])

\* op.int, op.ext: sequences of pairs
RECURSIVE DeInt(_, _)
DeInt(cc, prs) ==
  IF prs = <<>> THEN [ok |-> TRUE, c |-> cc]
  ELSE LET dp == prs[1][1] ip == prs[1][2] IN
       IF dp \notin Range1(cc.ports) \/ ip \in Range1(Points(cc)) THEN [ok |-> FALSE, c |-> cc]
       ELSE LET p2 == Without(cc.ports, {dp})
            IN DeInt([cc EXCEPT !.de = Append(@, [k |-> "int", a |-> dp, b |-> ip]),
                        !.ports = Append(p2, ip),
                        !.xp = [i \in 1..Len(p2) |-> PosOf(cc, p2[i])] \o <<PosOf(cc, dp)>>],
                     Tail(prs))
RECURSIVE DeExt(_, _)
DeExt(cc, prs) ==
  IF prs = <<>> THEN [ok |-> TRUE, c |-> cc]
  ELSE LET dp == prs[1][1] ep == prs[1][2] IN
       IF dp = ep \/ {dp, ep} \ Range1(cc.ports) # {} THEN [ok |-> FALSE, c |-> cc]
       ELSE LET p2 == Without(cc.ports, {dp, ep})
            IN DeExt([cc EXCEPT !.de = Append(@, [k |-> "ext", a |-> dp, b |-> ep]),
                        !.ports = p2,
                        !.xp = [i \in 1..Len(p2) |-> PosOf(cc, p2[i])]],
                     Tail(prs))
Deembed(h, op) ==
  LET r1 == DeInt(h[op.c], op.int)
      r2 == DeExt(r1.c, op.ext)
  IN IF r1.ok /\ r2.ok THEN Res(TRUE, [h EXCEPT ![op.c] = r2.c]) ELSE Res(FALSE, h)

\* a deep copy of object o appended to the heap; sharing inside is preserved
Copy(h, o) ==
  LET rs == SetToSortSeq(Reach(h, o), <)
      n == Len(h)
      new(x) == n + IdxOf(rs, x)
      cp(x) == IF h[x].t = "leaf" THEN h[x]
               ELSE [h[x] EXCEPT !.blocks =
                       [k \in 1..Len(@) |-> [@[k] EXCEPT !.obj = new(h[x].blocks[k].obj)]]]
  IN [h |-> h \o [i \in 1..Len(rs) |-> cp(rs[i])], id |-> new(o)]

\* replace the block at path (a sequence of names, top first) of circuit c by o.
\* Circuits on the way are copied first: only this occurrence changes.
\* par: what is passed to the new object from now on (nothing of what was passed to the old one)
RECURSIVE Replace(_, _, _, _, _)
Replace(h, c, path, o, par) ==
  LET cc == h[c] IN
  IF cc.t # "circ" \/ path = <<>> THEN Res(FALSE, h)
  ELSE IF path[1] \notin BlkNames(cc) THEN Res(FALSE, h)
  ELSE LET k == BlkIdx(cc, path[1]) b == cc.blocks[k] IN
    IF Len(path) = 1
    THEN IF ObjNp(h[o]) # Len(b.ports) THEN Res(FALSE, h)
         ELSE LET same == ObjPos(h[o]) = ObjPos(h[b.obj])
                  mine == Range1(BlkPts(b))
                  c2 == [cc EXCEPT !.blocks[k].obj = o, !.blocks[k].par = par,
                           !.xp = IF same THEN @
                                  ELSE [i \in 1..Len(@) |-> IF cc.ports[i] \in mine THEN <<"?">> ELSE @[i]]]
              IN Res(TRUE, [h EXCEPT ![c] = c2])
    ELSE IF h[b.obj].t # "circ" THEN Res(FALSE, h)
    ELSE LET cp == Copy(h, b.obj)
             r == Replace(cp.h, cp.id, Tail(path), o, par)
         IN IF ~r.ok THEN Res(FALSE, h)
            ELSE Res(TRUE, [r.h EXCEPT ![c].blocks[k].obj = cp.id])

\* the object at a path below o, 0 when there is none
RECURSIVE FindObj(_, _, _)
FindObj(h, o, path) ==
  IF path = <<>> THEN o
  ELSE IF h[o].t # "circ" THEN 0
  ELSE IF path[1] \notin BlkNames(h[o]) THEN 0
  ELSE FindObj(h, h[o].blocks[BlkIdx(h[o], path[1])].obj, Tail(path))

\* the paths of all blocks below circuit c, depth first in order of creation
RECURSIVE BlockPaths(_, _)
BlockPaths(h, c) ==
  IF h[c].t # "circ" THEN <<>>
  ELSE Flat([k \in 1..Len(h[c].blocks) |->
               LET b == h[c].blocks[k] sub == BlockPaths(h, b.obj)
               IN << <<b.nm>> >> \o [i \in 1..Len(sub) |-> <<b.nm>> \o sub[i]]])
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Join(Tail(p))

\* where a point of circuit c is
RECURSIVE PointPos(_, _, _)
PointPos(h, c, pt) ==
  LET cc == h[c]
      ks == {k \in 1..Len(cc.blocks) : pt \in Range1(BlkPts(cc.blocks[k]))}
      js == {k \in 1..Len(cc.jn) : cc.jn[k].new = pt}
      ds == {k \in 1..Len(cc.de) : cc.de[k].k = "int" /\ cc.de[k].b = pt}
  IN IF ks # {} THEN LET b == cc.blocks[CHOOSE k \in ks : TRUE]
                     IN AddPos(<<b.rp>>, ObjPos(h[b.obj])[IdxOf(BlkPts(b), pt)])
     ELSE IF js # {} THEN cc.jn[CHOOSE k \in js : TRUE].pos
     ELSE IF ds # {} THEN PointPos(h, c, cc.de[CHOOSE k \in ds : TRUE].a)
     ELSE <<"?">>
\* ... and a point of the circuit at a path below c
RECURSIVE NodePosition(_, _, _, _)
NodePosition(h, c, path, pt) ==
  IF path = <<>> THEN PointPos(h, c, pt)
  ELSE LET b == h[c].blocks[BlkIdx(h[c], path[1])]
       IN AddPos(<<b.rp>>, NodePosition(h, b.obj, Tail(path), pt))

Settable(o) ==
  IF o.t # "leaf" THEN {}
  ELSE CASE o.kind = "rlc" -> {"Rs", "Ls", "Cs", "Rp", "Lp", "Cp"}
         [] o.kind = "trl" -> {"L"}
         [] o.kind = "arc" -> {"Larc"}
         [] OTHER -> {}
SetLeaf1(o, a, v) ==
  LET o2 == [o EXCEPT !.p[a] = v] IN
  IF o.kind = "trl" /\ a = "L" THEN [o2 EXCEPT !.xpos = << @[1], @[1] \o <<v>> >>] ELSE o2
RECURSIVE SetLeaf(_, _)
SetLeaf(o, avs) == IF avs = <<>> THEN o ELSE SetLeaf(SetLeaf1(o, avs[1][1], avs[1][2]), Tail(avs))
\* op.as: sequence of [path, av]: a path below op.c and pairs <<attr, value>>
RECURSIVE SetAll(_, _, _)
SetAll(h, c, as) ==
  IF as = <<>> THEN Res(TRUE, h)
  ELSE LET o == FindObj(h, c, as[1].path) IN
       IF o = 0 THEN Res(FALSE, h)
       ELSE IF \E i \in 1..Len(as[1].av) : as[1].av[i][1] \notin Settable(h[o]) THEN Res(FALSE, h)
       ELSE SetAll([h EXCEPT ![o] = SetLeaf(@, as[1].av)], c, Tail(as))
Set(h, op) == LET r == SetAll(h, op.c, op.as) IN IF r.ok THEN r ELSE Res(FALSE, h)
\* did any parameter change value?
SameT(a, b) == a = b \/ (a # Inf /\ b # Inf /\ CClose(Num(a), Num(b), CMul(CStr("1e-13"), CAbs(Num(a)))))
SetChanges(h, op) ==
  \E i \in 1..Len(op.as) : LET o == FindObj(h, op.c, op.as[i].path) IN
     o # 0 /\ \E j \in 1..Len(op.as[i].av) :
        op.as[i].av[j][1] \in DOMAIN h[o].p /\ ~SameT(h[o].p[op.as[i].av[j][1]], op.as[i].av[j][2])

\* evaluating a circuit passes the parameters given at addblock to the blocks
RECURSIVE Evaluated(_, _)
Evaluated(h, o) ==
  IF h[o].t = "leaf" THEN h
  ELSE LET RECURSIVE go(_, _)
           go(hh, k) == IF k > Len(h[o].blocks) THEN hh
                        ELSE LET b == h[o].blocks[k]
                                 h1 == IF b.par = <<>> \/ hh[b.obj].t # "leaf" THEN hh
                                       ELSE [hh EXCEPT ![b.obj] = SetLeaf(@, b.par)]
                             IN go(Evaluated(h1, b.obj), k + 1)
       IN [go(h, 1) EXCEPT ![o].frz = TRUE]

\* looking around asks the object found for its S, when it has one
Askable(h, o) ==
  o # 0 /\ \A x \in Reach(h, o) : h[x].t = "circ" => PnOK(h[x]) /\ h[x].blocks # <<>> /\ h[x].ports # <<>>
Navigated(h, op) ==
  LET o == FindObj(h, op.c, op.path) IN IF Askable(h, o) THEN Evaluated(h, o) ELSE h

-----------------------------------------------------------------------------
(* The physics.                                                             *)
Z50 == CInt(50)

\* reflection law of a termination as <<p, q>>: p V + q I = 0
TermLaw(t, zb) ==
  LET v == CPair(t.v) IN
  CASE t.k = "Z" -> <<C1, v>>                       \* V = -Z I
    [] t.k = "Y" -> <<v, C1>>                       \* -I = Y V
    [] OTHER -> << CSub(C1, v), CMul(zb, CAdd(C1, v)) >>

RECURSIVE Rel(_, _, _, _)
RECURSIVE NetX(_, _, _)
\* the relation of object o at frequency f (text), zc: reference of a bare array
Rel(h, o, f, zc) ==
  LET ob == h[o] IN
  IF ob.t = "circ" /\ ob.snp # <<>> THEN
    IF f \in DOMAIN ob.snp[1].tab THEN RelOfS(CMat(ob.snp[1].tab[f]), Num(ob.snp[1].zb)) ELSE <<>>
  ELSE IF ob.t = "circ" THEN
    LET s == (LET X == NetX(h, o, f)
                  K == Len(Points(ob))
                  ext == ExtOrder(ob)
                  pi == [i \in 1..Len(ext) |-> IdxOf(Points(ob), ext[i])]
              IN IF X = <<>> THEN <<>>
                 ELSE [i \in 1..Len(ext) |-> [j \in 1..Len(ext) |->
                        CHalf(CSub(X[pi[i]][j], CMul(Z50, X[K + pi[i]][j])))]])
    IN IF s = <<>> THEN <<>> ELSE RelOfS(s, Z50)
  ELSE CASE ob.kind = "rlc" -> RelRLC(ob.p, Num(f))
         [] ob.kind = "trl" -> RelTRL(ob.p, Num(f))
         [] ob.kind = "arc" -> RelArc(ob.p, Num(f))
         \* (a quarter wave at 0 Hz is not anything)
         [] ob.kind = "cpl" -> IF ob.p.f0 = "any" /\ CLe(Num(f), CStr("1e-300")) THEN <<>> ELSE RelOfS(SCoupler(ob.p, Num(f)), Num(ob.zb))
         [] ob.kind = "arr" -> RelOfS(CMat(ob.tab["*"]), zc)
         [] OTHER -> IF f \in DOMAIN ob.tab THEN RelOfS(CMat(ob.tab[f]), Num(ob.zb)) ELSE <<>>

\* the same objects, with the model behind every attached table
NoTables(h) == [o \in 1..Len(h) |-> IF h[o].t = "circ" THEN [h[o] EXCEPT !.snp = <<>>] ELSE h[o]]
Tabled(h, o) == \E x \in Reach(h, o) : h[x].t = "circ" /\ h[x].snp # <<>>

\* the linear system of circuit c: rows over (V_1..V_K, I_1..I_K); the solution
\* has one column per external port, excited by a unit incident wave at 50 Ohm
NetX(h, c, f) ==
  LET cc == h[c]
      pts == Points(cc)
      K == Len(pts)
      pos == TLCEval([p \in Range1(pts) |-> IdxOf(pts, p)])
      zb == Num(cc.zb)
      rels == TLCEval([k \in 1..Len(cc.blocks) |->
                LET b == cc.blocks[k]
                    h1 == IF b.par = <<>> \/ h[b.obj].t # "leaf" THEN h
                          ELSE [h EXCEPT ![b.obj] = SetLeaf(@, b.par)]
                IN Rel(h1, b.obj, f, zb)])
      ext == ExtOrder(cc)
      blkrows(k) ==
        LET bp == BlkPts(cc.blocks[k]) n == Len(bp) IN
        [r \in 1..n |-> CRow(2*K, [i \in 1..n |-> <<pos[bp[i]], rels[k][1][r][i]>>]
                                  \o [i \in 1..n |-> <<K + pos[bp[i]], rels[k][2][r][i]>>])]
      veq(p, q) == CRow(2*K, << <<pos[p], C1>>, <<pos[q], CInt(-1)>> >>)
      jnrows(j) ==
        LET m == j.mem IN
        [r \in 1..(Len(m) - 1) |-> veq(m[r + 1], m[1])]
        \o (IF j.new = "" THEN <<>> ELSE <<veq(j.new, m[1])>>)
        \o << CRow(2*K, [i \in 1..Len(m) |-> <<K + pos[m[i]], C1>>]
                        \o (IF j.new = "" THEN <<>> ELSE << <<K + pos[j.new], CInt(-1)>> >>)) >>
      tmrow(t) == LET l == TermLaw(t, zb) IN
                  CRow(2*K, << <<pos[t.pt], l[1]>>, <<K + pos[t.pt], l[2]>> >>)
      derows(d) == << veq(d.a, d.b),
                      CRow(2*K, << <<K + pos[d.a], C1>>,
                                   <<K + pos[d.b], IF d.k = "int" THEN C1 ELSE CInt(-1)>> >>) >>
      exrow(p) == CRow(2*K, << <<pos[p], CRat(1, 2)>>, <<K + pos[p], CInt(25)>> >>)
      rows == Flat([k \in 1..Len(cc.blocks) |-> blkrows(k)])
              \o Flat([k \in 1..Len(cc.jn) |-> jnrows(cc.jn[k])])
              \o [k \in 1..Len(cc.tm) |-> tmrow(cc.tm[k])]
              \o Flat([k \in 1..Len(cc.de) |-> derows(cc.de[k])])
      nr == Len(rows)
      all == rows \o [k \in 1..Len(ext) |-> exrow(ext[k])]
      rhs == [r \in 1..Len(all) |-> [k \in 1..Len(ext) |-> IF r = nr + k THEN C1 ELSE C0]]
  IN IF \E k \in 1..Len(rels) : rels[k] = <<>> THEN <<>>
     ELSE IF Len(all) # 2 * K \/ K = 0 \/ ext = <<>> THEN <<>>
     ELSE CMSolve(all, rhs)

\* S of any object at reference impedance z (CNum): <<>> unspecified
ObjS(h, o, f, z) == SOfRel(Rel(h, o, f, Z50), z)

\* V and I at all points of circuit c, given V and I at its external ports
\* (sequences in ExtOrder); <<>> unspecified
PointVI(h, c, f, vs, is) ==
  LET X == NetX(h, c, f) IN
  IF X = <<>> THEN <<>>
  ELSE LET a == TLCEval([i \in 1..Len(vs) |-> CHalf(CAdd(vs[i], CMul(Z50, is[i])))])
           y == TLCEval(CMVec(X, a))
           pts == Points(h[c])
           K == Len(pts)
       IN TLCEval([p \in Range1(pts) |-> <<y[IdxOf(pts, p)], y[K + IdxOf(pts, p)]>>])

\* two points can have the same full path name (a block's port, and a port inside the circuit
\* used as that block); when they differ a third component marks the name as ambiguous
SameVI(x, y) == CClose(x[1], y[1], CMul(CStr("1e-9"), CAdd(C1, CAbs(x[1]))))
                /\ CClose(x[2], y[2], CMul(CStr("1e-9"), CAdd(C1, CAbs(x[2]))))
Merge(A, B) == TLCEval([k \in DOMAIN A \cup DOMAIN B |->
                 IF k \notin DOMAIN B THEN A[k] ELSE IF k \notin DOMAIN A THEN B[k]
                 ELSE IF SameVI(A[k], B[k]) THEN A[k] ELSE <<A[k][1], A[k][2], "ambiguous">>])
\* V and I at every point at every level, keyed by full path name
RECURSIVE AllVI(_, _, _, _, _, _)
AllVI(h, c, f, vs, is, pre) ==
  LET m == PointVI(h, c, f, vs, is) IN
  IF m = <<>> THEN <<>>
  ELSE LET cc == h[c]
           here == TLCEval([k \in {pre \o p : p \in DOMAIN m} |->
                       m[CHOOSE p \in DOMAIN m : pre \o p = k]])
           sub == {k \in 1..Len(cc.blocks) : h[cc.blocks[k].obj].t = "circ"}
           RECURSIVE go(_)
           go(S) == IF S = {} THEN here
                    ELSE LET k == CHOOSE x \in S : TRUE
                             b == cc.blocks[k]
                             bp == BlkPts(b)
                         IN Merge(go(S \ {k}),
                            AllVI(h, b.obj, f, TLCEval([i \in 1..Len(bp) |-> m[bp[i]][1]]),
                                  TLCEval([i \in 1..Len(bp) |-> m[bp[i]][2]]), pre \o b.nm \o "."))
       IN go(sub)

\* port voltages and currents for incident waves a (sequence) at reference z
PortVI(S, a, z) ==
  LET b == CMVec(S, a) IN
  << TLCEval([i \in 1..Len(a) |-> CAdd(a[i], b[i])]),
     TLCEval([i \in 1..Len(a) |-> CDiv(CSub(a[i], b[i]), z)]) >>
=============================================================================
