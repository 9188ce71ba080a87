------------------------------ MODULE ConvGen ------------------------------
(***************************************************************************)
(* The user of the representation converters: holds descriptions of        *)
(* networks (S with a wave type and port impedances, Z, Y, VI, in one of   *)
(* four container shapes) and converts them into one another.              *)
(*                                                                         *)
(* Mode "walk": random chains (simulate).  Mode "grid": every single       *)
(* conversion (shape x ports x impedance forms x wave types), exhaustively.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, MaxOps
VARIABLES held, hist
vars == <<held, hist>>

Shapes == {"scalar", "list", "mat", "arr"}
ZForms == {"s", "p", "fp"}        \* scalar, per port, per frequency and port
Types == {"V", "P", "G"}
Conts == {"list", "arr"}
PortsOf(sh) == IF sh \in {"scalar", "list"} THEN {1} ELSE 1..4
NfOf(sh) == IF sh \in {"scalar", "mat"} THEN {1} ELSE 1..4
Pats == {"full", "lossy", "diag", "zero", "perm"}
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}

HS(n, nf, sh, typ, zf, cx) == [rep |-> "S", n |-> n, nf |-> nf, sh |-> sh, typ |-> typ, zf |-> zf, cx |-> cx]
H(rep, h) == [h EXCEPT !.rep = rep]

Op(k) == [k |-> k, r |-> R(99999)]
Do(op, h) == held' = Append(held, h) /\ hist' = Append(hist, op)

New(rep, n, nf, sh, typ, zf, cx, pat, ct) ==
  Do([k |-> "new", rep |-> rep, n |-> n, nf |-> nf, sh |-> sh, typ |-> typ, zf |-> zf, cx |-> cx, pat |-> pat,
      ct |-> ct, nid |-> Len(held) + 1, r |-> R(99999)],
     [HS(n, nf, sh, typ, zf, cx) EXCEPT !.rep = rep])
Conv(i, typ, zf, cx, ct, back) ==
  Do([k |-> "conv", o |-> i, typ |-> typ, zf |-> zf, cx |-> cx, ct |-> ct, back |-> back,
      nid |-> Len(held) + 1, r |-> R(99999)],
     [held[i] EXCEPT !.typ = typ, !.zf = zf, !.cx = cx])
Ok(typ, cx) == cx => typ = "G"

Init == held = <<>> /\ hist = <<>>

NewAny == \E sh \in One(Shapes) : \E n \in One(PortsOf(sh)), nf \in One(NfOf(sh)), typ \in One(Types), zf \in One(ZForms),
            cx \in One(BOOLEAN), pat \in One(Pats), ct \in One(Conts), rq \in One(1..6) : LET rep == <<"S", "S", "S", "Z", "Y", "VI">>[rq] IN
            IF rep = "VI" THEN New("VI", 2, 1, "mat", "V", "s", FALSE, "full", ct)
            ELSE IF rep = "S" THEN New("S", n, nf, sh, typ, zf, cx /\ typ = "G", pat, ct)
            ELSE New(rep, n, nf, sh, "V", "s", FALSE, pat, ct)
SIdx == {i \in 1..Len(held) : held[i].rep = "S"}
NIdx == 1..Len(held) \ SIdx
VIdx == {i \in SIdx : held[i].typ = "V" /\ held[i].zf = "s"}
ConvAny == \E i \in One(SIdx), typ \in One(Types), zf \in One(ZForms), cx \in One(BOOLEAN), ct \in One(Conts),
             back \in One({"no"}) :
             Conv(i, typ, zf, cx /\ typ = "G", ct, back)
\* to and from Z and Y, at a scalar reference impedance
FromS == \E i \in One(VIdx), ct \in One(Conts), to \in One({"Z", "Y"}) :
           Do([k |-> "from_S", o |-> i, to |-> to, ct |-> ct, nid |-> Len(held) + 1, r |-> R(99999)], H(to, held[i]))
ToS == \E i \in One(NIdx), ct \in One(Conts), d \in One({1, 2, 3}) :
           Do([k |-> "to_S", o |-> i, zb |-> IF d = 1 THEN "default" ELSE "given", ct |-> ct, nid |-> Len(held) + 1, r |-> R(99999)],
              [held[i] EXCEPT !.rep = "S", !.typ = "V", !.zf = "s", !.cx = FALSE])
\* requests that cannot be met
BadAny == \E what \in One({"type1", "type2", "z1len", "z2len", "zshape", "nonsquare", "cube", "vi3"}) :
            /\ held' = held
            /\ hist' = Append(hist, [k |-> "bad", what |-> what, n |-> 1 + R(3), nf |-> R(3), r |-> R(99999)])

Walk == \E w \in One(1..(20 + 0 * Len(hist))) :
          IF w <= 4 \/ held = <<>> THEN NewAny
          ELSE IF w <= 10 /\ SIdx # {} THEN ConvAny
          ELSE IF w <= 14 /\ VIdx # {} THEN FromS
          ELSE IF w <= 18 /\ NIdx # {} THEN ToS
          ELSE IF w = 19 THEN BadAny ELSE IF SIdx # {} THEN ConvAny ELSE NewAny
Grid ==
  \/ /\ Len(hist) = 0
     /\ \/ \E sh \in Shapes : \E n \in PortsOf(sh) \cap 1..3, nf \in NfOf(sh) \cap {1, 3}, typ \in Types, zf \in ZForms, cx \in BOOLEAN :
             Ok(typ, cx) /\ New("S", n, nf, sh, typ, zf, cx, "lossy", "arr")
        \/ \E sh \in Shapes, rep \in {"Z", "Y"} : \E n \in PortsOf(sh) \cap 1..3, nf \in NfOf(sh) \cap {1, 3} :
             New(rep, n, nf, sh, "V", "s", FALSE, "full", "list")
  \/ /\ Len(hist) = 1
     /\ IF held[1].rep = "S"
        THEN \/ \E typ \in Types, zf \in ZForms, cx \in BOOLEAN : Ok(typ, cx) /\ Conv(1, typ, zf, cx, "arr", "no")
             \/ /\ held[1].typ = "V" /\ held[1].zf = "s"
                /\ \E to \in {"Z", "Y"} : Do([k |-> "from_S", o |-> 1, to |-> to, ct |-> "arr", nid |-> 2, r |-> 5], H(to, held[1]))
        ELSE \E d \in {"default", "given"} :
               Do([k |-> "to_S", o |-> 1, zb |-> d, ct |-> "list", nid |-> 2, r |-> 5], H("S", held[1]))
  \/ /\ Len(hist) = 2
     /\ PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars

Next == IF Mode = "grid" THEN Grid
        ELSE IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars
        ELSE Walk
Spec == Init /\ [][Next]_vars

\* a description never changes its container shape, port or frequency count
ShapesKept == \A k \in 1..Len(hist) : hist[k].k \in {"conv", "from_S", "to_S"} =>
                LET a == held[hist[k].o] b == held[hist[k].nid] IN a.sh = b.sh /\ a.n = b.n /\ a.nf = b.nf
=============================================================================
