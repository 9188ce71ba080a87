-------------------------------- MODULE Gtl ---------------------------------
(***************************************************************************)
(* What a transmission-line model file means: the circuit of its blocks.   *)
(*                                                                         *)
(* A model m is                                                            *)
(*   [key, keys, exists,  zb, pn, rel, blocks, glo, loc, arg, snp]         *)
(*   key     the section asked for, keys the sections in the file          *)
(*   pn      declared ports      rel  << <<port, expr>> >>                 *)
(*   blocks  << [nm, kind, ports, par, pos, pk, lk, zk, xk] >>             *)
(*     ports  << [n, t, e] >>: a name n, or ("") a termination t with its  *)
(*            value e; t in oc sc Z Y RC                                   *)
(*     par    << <<keyword, expr>> >>, pos <<>> or <<expr>>                *)
(*     pk lk zk xk  which of the alternative keywords are used             *)
(*   glo loc arg  << <<variable, expr>> >>: of the file, of the section,   *)
(*            of the caller.  The caller overrules the file, and the file  *)
(*            overrules the section.                                       *)
(* An expression is [k |-> "c", c |-> <<re, im>>], [k |-> "v", v |-> name],*)
(* [k |-> "+" | "-" | "*" | "/", a, b] or [k |-> "sqrt", a].               *)
(*                                                                         *)
(* Equal port names in different blocks are one junction; a name occurring *)
(* once is a port of the model, and these are the declared ones.           *)
(***************************************************************************)
EXTENDS Circuit

HasVar(d, v) == \E i \in 1..Len(d) : d[i][1] = v
VarDef(d, v) == d[CHOOSE i \in 1..Len(d) : d[i][1] = v][2]
RECURSIVE EvalX(_, _, _)
EvalX(e, m, depth) ==
  IF depth = 0 THEN CNaN
  ELSE CASE e.k = "c" -> CPair(e.c)
         [] e.k = "v" -> IF HasVar(m.arg, e.v) THEN EvalX(VarDef(m.arg, e.v), m, depth - 1)
                         ELSE IF HasVar(m.glo, e.v) THEN EvalX(VarDef(m.glo, e.v), m, depth - 1)
                         ELSE IF HasVar(m.loc, e.v) THEN EvalX(VarDef(m.loc, e.v), m, depth - 1)
                         ELSE CNaN
         [] e.k = "+" -> CAdd(EvalX(e.a, m, depth - 1), EvalX(e.b, m, depth - 1))
         [] e.k = "-" -> CSub(EvalX(e.a, m, depth - 1), EvalX(e.b, m, depth - 1))
         [] e.k = "*" -> CMul(EvalX(e.a, m, depth - 1), EvalX(e.b, m, depth - 1))
         [] e.k = "/" -> CDiv(EvalX(e.a, m, depth - 1), EvalX(e.b, m, depth - 1))
         [] OTHER -> CSqrt(EvalX(e.a, m, depth - 1))
Ev(e, m) == EvalX(e, m, 24)

Unit(kw) ==
  CASE kw \in {"ID", "OD"} -> CStr("1e-3")  [] kw \in {"CTL", "Cs", "Cp"} -> CStr("1e-12")
    [] kw \in {"LTL", "Ls", "Lp", "Larc"} -> CStr("1e-9")  [] kw = "rho" -> CStr("1e-6") [] OTHER -> C1

GMu0 == CStr("1.25663706127e-6")
\* the parameters of a block's element, as texts
LineOf(q) ==        \* q: keyword -> number
  IF "ID" \notin DOMAIN q THEN [k \in DOMAIN q |-> CText(q[k])]
  ELSE LET er == IF "epsr" \in DOMAIN q THEN q["epsr"] ELSE C1
           z == CDiv(CMul(CMul(GMu0, CLight), CLog(CDiv(q["OD"], q["ID"]))), CMul(CTwoPi, CSqrt(er)))
           d == CAdd(CInv(CMul(CPi, q["ID"])), CInv(CMul(CPi, q["OD"])))
           base == ("L" :> CText(q["L"])) @@ ("Z0TL" :> CText(z)) @@ ("vr" :> CText(CInv(CSqrt(er))))
       IN IF "rho" \in DOMAIN q
          THEN base @@ ("rsk" :> CText(CMul(d, CSqrt(CMul(CPi, CMul(GMu0, q["rho"]))))))
          ELSE base
RlcDefault == [Rs |-> "0", Ls |-> "0", Cs |-> Inf, Rp |-> Inf, Lp |-> Inf, Cp |-> "0"]
ElementOf(b, m) ==
  LET q == TLCEval([kw \in {b.par[i][1] : i \in 1..Len(b.par)} |-> CMul(Unit(kw), Ev(VarDef(b.par, kw), m))]) IN
  CASE b.kind = "trl" -> LineOf(q)
    [] b.kind = "rlc" -> [k \in DOMAIN RlcDefault |-> IF k \in DOMAIN q THEN CText(q[k]) ELSE RlcDefault[k]]
    [] OTHER -> [Larc |-> CText(q["Larc"])]
PtName(p) == IF p.n # "" THEN p.n ELSE CASE p.t = "oc" -> "[oc]" [] p.t = "sc" -> "[sc]" [] OTHER -> "[**]"
Named(b) == SelectSeq([i \in 1..Len(b.ports) |-> b.ports[i].n], LAMBDA n : n # "")
UsersOf(m, p) == SelectSeq([i \in 1..Len(m.blocks) |-> i], LAMBDA i : p \in Range1(Named(m.blocks[i])))
NamesOf(m) == UNION {Range1(Named(m.blocks[i])) : i \in 1..Len(m.blocks)}
FreeOf(m) == {p \in NamesOf(m) : Len(UsersOf(m, p)) = 1}

ExprOK(e, m) == ~CIsNaN(Ev(e, m))
BlockOK(b, m) ==
  /\ b.pk \in {"ports", "Portnames"}
  /\ b.lk # "both" /\ b.zk # "both" /\ b.xk # "both"
  /\ \A i \in 1..Len(b.par) : ExprOK(b.par[i][2], m)
  /\ \A i \in 1..Len(b.pos) : ExprOK(b.pos[i], m)
  /\ \A i \in 1..Len(b.ports) : b.ports[i].t \in {"Z", "Y", "RC"} => ExprOK(b.ports[i].e, m)
ModelOK(m) ==
  /\ m.exists /\ m.key \in Range1(m.keys)
  /\ \A i \in 1..Len(m.rel) : m.rel[i][1] \in Range1(m.pn) /\ ExprOK(m.rel[i][2], m)
  /\ \A i \in 1..Len(m.blocks) : BlockOK(m.blocks[i], m)
  /\ NoDup(m.pn) /\ Range1(m.pn) = FreeOf(m) /\ m.pn # <<>>

-----------------------------------------------------------------------------
\* positions along the network: <<>> not known, else <<number>>
Off(b, i, m) == IF b.kind = "trl" /\ i = 2 THEN Ev(VarDef(b.par, "L"), m) ELSE C0
RECURSIVE Spread(_, _, _, _)
\* P: port -> position, B: block -> position of its first port
Spread(m, P, B, n) ==
  IF n = 0 THEN <<P, B>>
  ELSE LET known(i) == {k \in 1..Len(m.blocks[i].ports) : m.blocks[i].ports[k].n # ""
                              /\ P[m.blocks[i].ports[k].n] # <<>>}
           B2 == TLCEval([i \in 1..Len(B) |->
                   IF B[i] # <<>> \/ known(i) = {} THEN B[i]
                   ELSE LET k == CHOOSE k \in known(i) : TRUE IN
                        <<CSub(P[m.blocks[i].ports[k].n][1], Off(m.blocks[i], k, m))>>])
           P2 == TLCEval([p \in DOMAIN P |->
                   LET us == {i \in 1..Len(B) : B2[i] # <<>> /\ p \in Range1(Named(m.blocks[i]))} IN
                   IF P[p] # <<>> \/ us = {} THEN P[p]
                   ELSE LET i == CHOOSE i \in us : TRUE
                            k == CHOOSE k \in 1..Len(m.blocks[i].ports) : m.blocks[i].ports[k].n = p
                        IN <<CAdd(B2[i][1], Off(m.blocks[i], k, m))>>])
       IN Spread(m, P2, B2, n - 1)
\* where each block is: a text, "?" when nothing is said (or contradictory things are)
Places(m) ==
  LET P0 == TLCEval([p \in NamesOf(m) |-> IF HasVar(m.rel, p) THEN <<Ev(VarDef(m.rel, p), m)>> ELSE <<>>])
      B0 == TLCEval([i \in 1..Len(m.blocks) |-> IF m.blocks[i].pos = <<>> THEN <<>> ELSE <<Ev(m.blocks[i].pos[1], m)>>])
      r == Spread(m, P0, B0, Len(m.blocks) + 1)
      bad == \E i \in 1..Len(m.blocks) : r[2][i] # <<>> /\
               \E k \in 1..Len(m.blocks[i].ports) : m.blocks[i].ports[k].n # "" /\
                  ~CClose(r[1][m.blocks[i].ports[k].n][1], CAdd(r[2][i][1], Off(m.blocks[i], k, m)), CStr("1e-12"))
  IN [i \in 1..Len(m.blocks) |-> IF bad \/ r[2][i] = <<>> THEN "?" ELSE CText(r[2][i][1])]

-----------------------------------------------------------------------------
\* the circuit: op.m the model; the new objects are the elements in order and the circuit
GtlBuild(h, op) ==
  LET m == op.m IN
  IF ~ModelOK(m) THEN Res(FALSE, h)
  ELSE
  LET n == Len(m.blocks)
      pl == TLCEval(Places(m))
      leafOf(b) == LET p == ElementOf(b, m)
                       np == Len(b.ports) IN
        [t |-> "leaf", kind |-> b.kind, np |-> np, ports |-> [i \in 1..np |-> PtName(b.ports[i])],
         xpos |-> IF b.kind = "trl" THEN << <<"0.0">>, <<p.L>> >> ELSE [i \in 1..np |-> <<"0.0">>],
         zb |-> m.zb, p |-> p, tab |-> <<>>, ll |-> FALSE, rec |-> TRUE]
      c == Len(h) + n + 1
      h1 == TLCEval(h \o [i \in 1..n |-> leafOf(m.blocks[i])] \o <<NewCirc(m.zb, <<>>)>>)
      tval(p) == CASE p.t = "oc" -> <<"Y", <<"0.0", "0.0">> >>
                   [] p.t = "sc" -> <<"Z", <<"0.0", "0.0">> >>
                   [] OTHER -> LET v == Ev(p.e, m) IN <<p.t, <<CText(CRe(v)), CText(CIm(v))>> >>
      RECURSIVE Blocks(_, _)
      Blocks(hh, i) ==
        IF i > n THEN hh
        ELSE LET b == m.blocks[i]
                 h2 == AddBlock(hh, [c |-> c, o |-> Len(h) + i, nm |-> b.nm, rp |-> pl[i], par |-> <<>>,
                                     pf |-> [k |-> "list", l |-> [k \in 1..Len(b.ports) |-> PtName(b.ports[k])]]]).h
                 ts == SelectSeq(b.ports, LAMBDA p : p.n = "")
                 h3 == IF ts = <<>> THEN h2
                       ELSE Terminate(h2, [c |-> c, pt |-> b.nm \o "." \o PtName(ts[1]), kv |-> <<tval(ts[1])>>]).h
             IN Blocks(h3, i + 1)
      pts(p) == [i \in 1..Len(UsersOf(m, p)) |-> m.blocks[UsersOf(m, p)[i]].nm \o "." \o p]
      RECURSIVE Joints(_, _)
      Joints(hh, S) == IF S = {} THEN hh
                       ELSE LET p == CHOOSE x \in S : TRUE
                            IN Joints(Connect(hh, [c |-> c, dot |-> FALSE, pts |-> pts(p)]).h, S \ {p})
      RECURSIVE Frees(_, _)
      Frees(hh, k) == IF k > Len(m.pn) THEN hh
                      ELSE Frees(Connect(hh, [c |-> c, dot |-> FALSE, pts |-> <<pts(m.pn[k])[1], m.pn[k]>>]).h, k + 1)
      h4 == Frees(Joints(Blocks(h1, 1), NamesOf(m) \ FreeOf(m)), 1)
  IN Res(TRUE, [h4 EXCEPT ![c].frz = TRUE, ![c].snp = m.snp, ![c].gtl = TRUE])
=============================================================================
