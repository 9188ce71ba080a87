------------------------------ MODULE CircGen ------------------------------
(***************************************************************************)
(* The state machine of circuits under construction and use: which         *)
(* operations are possible next and what they do (Circuit.tla).            *)
(*                                                                         *)
(* Two uses.  Sim = TRUE: `tlc -simulate` walks it at random, and at the   *)
(* end of each walk prints the sequence of operations (hist) for replay on *)
(* the real library.  Sim = FALSE: TLC enumerates every walk of a small    *)
(* instance and checks the model's own invariants (MCCirc.cfg).            *)
(*                                                                         *)
(* Only the structure matters here; parameter values are drawn by the      *)
(* driver from the operation's r, and come back in the recorded trace.     *)
(***************************************************************************)
EXTENDS Gtl, Json, Randomization

CONSTANTS Sim, Profile, MaxOps, NLeaf, NCirc
VARIABLES heap, hist, hand, lvl      \* hand: the ids the user holds

vars == <<heap, hist, hand, lvl>>

Pick(S) == IF Sim THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Opt(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
Rnd(n) == IF Sim THEN RandomElement(1..n) ELSE 1
Chance(p) == IF Sim THEN RandomElement(1..100) <= p ELSE FALSE
\* (TLC evaluates a constant definition once only: these mention a variable)
R4 == IF Sim THEN RandomElement(1..(9999 + 0 * Len(hist))) ELSE 7

\* (two of them nearly alike)
Freqs == <<"20000000.0", "37500000.0", "55000000.0", "81000000.0", "20000150.0", "0.0">>
\* (a coupler that is a quarter wave at every frequency is nothing at 0 Hz)
FreqSet == IF ~Sim THEN {Freqs[1]}
           ELSE IF \E o \in 1..Len(heap) : heap[o].t = "leaf" /\ heap[o].kind = "cpl" THEN Range1(Freqs) \ {"0.0"}
           ELSE Range1(Freqs)
Zbs == IF Sim THEN {"50.0", "30.0", "75.0", "12.5"} ELSE {"50.0"}
BNames == IF Sim THEN <<"A", "AB", "b", "T1", "x_y", "A1">> ELSE <<"A", "B">>
NNames == IF Sim THEN <<"n", "nA", "m", "n2">> ELSE <<"n">>
RPs == IF Sim THEN {"0.0", "1.25", "-0.5", "3.0"} ELSE {"0.0"}

Lossless == Profile = "lossless"
Kinds == IF ~Sim THEN {"rlc"}
         ELSE IF Lossless THEN {"rlc", "trl", "tab", "cpl", "arc", "arr"}
         ELSE {"rlc", "trl", "tab", "arr", "cpl", "arc", "base"}

Leaves == {o \in hand : heap[o].t = "leaf"}
Circs == {o \in hand : heap[o].t = "circ"}
Used(o) == UsedBy(heap, o) # {}
\* may still be built on
Open(o) == heap[o].t = "circ" /\ ~heap[o].gtl /\ ~Used(o) /\ heap[o].pn = <<>>
NPts(o) == Len(Points(heap[o]))
RECURSIVE Depth(_)
Depth(o) == IF heap[o].t = "leaf" THEN 0
            ELSE 1 + (LET S == {Depth(heap[o].blocks[k].obj) : k \in 1..Len(heap[o].blocks)}
                      IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m)
RECURSIVE Size(_)
Size(o) == IF heap[o].t = "leaf" THEN 1
           ELSE 1 + (LET bs == heap[o].blocks IN
                     FoldSeq(LAMBDA b, acc : acc + Size(b.obj), 0, bs))
\* can be asked for S
RECURSIVE Whole(_)
Whole(o) == IF heap[o].t = "leaf" THEN TRUE
            ELSE /\ heap[o].blocks # <<>> /\ heap[o].ports # <<>>
                 /\ PnOK(heap[o])
                 /\ \A k \in 1..Len(heap[o].blocks) : Whole(heap[o].blocks[k].obj)
Ready(o) == heap[o].t = "circ" /\ Whole(o) /\ Size(o) <= 14

-----------------------------------------------------------------------------
\* operations, each a set of zero or one (Sim) or all (~Sim) records
GLeaf ==
  LET mk(kind, n, cp, cx, r) ==
        LET ports == CASE kind = "rlc" -> IF cp THEN <<"in", "out">> ELSE <<"s", "p">>
                       [] kind = "trl" -> IF cp THEN <<"L", "R">> ELSE <<"1", "2">>
                       [] kind = "cpl" -> <<"A1", "A2", "B1", "B2">>
                       [] kind = "arc" -> <<"x">>
                       [] kind = "arr" -> <<>>
                       [] OTHER -> SubSeq(<<"u", "v1", "w", "z9">>, 1, n)
        IN [k |-> "leaf", kind |-> kind, np |-> n, ports |-> ports, cp |-> cp, cx |-> cx,
            ll |-> Lossless, rec |-> (Lossless \/ r % 2 = 0), r |-> r, nid |-> Len(heap) + 1]
      np(kind) == CASE kind \in {"rlc", "trl"} -> 2 [] kind = "cpl" -> 4 [] kind = "arc" -> 1
                    [] OTHER -> Rnd(3)
  IN IF Cardinality(Leaves) >= NLeaf THEN {}
     ELSE {mk(kind, np(kind), Chance(25) /\ kind \in {"rlc", "trl"}, Chance(30), R4)
             : kind \in Opt(Kinds)}

GCirc ==
  IF Cardinality(Circs) >= NCirc THEN {}
  ELSE {[k |-> "circ", zb |-> z, Id |-> "K" \o ToString(Len(heap) + 1), r |-> R4,
         nid |-> Len(heap) + 1] : z \in Opt(Zbs)}

\* models read from files.  Everything about the model follows from one number r; the
\* driver puts values and expressions for E1
E1 == [k |-> "c", c |-> <<"1.0", "0.0">>]
H(r, i, n) == LET x == (r * 13 + i * 1543) % 9973 IN (((x * x) % 9973) * 37 + x) % n
PoolN == <<"ss", "1t", "4pj", "a", "n1", "n_2", "T", "x7", "q", "end", "k", "m0">>
TrlPars == << <<"L", "Z0TL">>, <<"L", "Z0TL", "vr">>, <<"L", "LTL", "CTL">>, <<"L", "LTL", "CTL", "rTL", "gTL">>,
              <<"L", "ID", "OD">>, <<"rho", "L", "OD", "ID">>, <<"OD", "ID", "epsr", "rho", "L">> >>
RlcPars == << <<"Rs", "Ls">>, <<"Cs">>, <<"Cp">>, <<"Ls", "Cp", "Rs">>, <<"Rs", "Lp">>, <<"Rp", "Ls", "Cs">> >>
Terms == <<"oc", "sc", "Z", "Y", "RC">>
RECURSIVE MkBlocks(_, _, _, _, _)
MkBlocks(r, i, n, bs, used) ==
  IF i > n THEN bs
  ELSE LET hk == H(r, 10 * i, 10)
           kind == IF hk < 6 THEN "trl" ELSE IF hk < 9 \/ used = <<>> THEN "rlc" ELSE "arc"
           p(nm) == [n |-> nm, t |-> "", e |-> E1]
           fresh(j) == PoolN[Len(used) + j]
           old(j, S) == LET q == SelectSeq(used, LAMBDA x : x \notin S) IN
                        IF q = <<>> THEN "" ELSE q[1 + H(r, j, Len(q))]
           a == IF used = <<>> \/ H(r, 10 * i + 1, 100) < 15 THEN fresh(1) ELSE old(10 * i + 2, {})
           hb == H(r, 10 * i + 3, 100)
           f2 == IF a \in Range1(used) THEN fresh(1) ELSE fresh(2)
           b == IF hb < 55 THEN p(f2)
                ELSE IF hb < 72 THEN LET o == old(10 * i + 4, {a}) IN IF o = "" THEN p(f2) ELSE p(o)
                ELSE [n |-> "", t |-> Terms[1 + H(r, 10 * i + 5, 5)], e |-> E1]
           ps == IF kind = "arc" THEN <<p(a)>> ELSE IF H(r, 10 * i + 6, 2) = 1 THEN <<b, p(a)>> ELSE <<p(a), b>>
           kws == CASE kind = "trl" -> TrlPars[1 + H(r, 10 * i + 7, 7)]
                    [] kind = "rlc" -> RlcPars[1 + H(r, 10 * i + 7, 6)] [] OTHER -> <<"Larc">>
           blk == [nm |-> "B" \o ToString(i), kind |-> kind, ports |-> ps,
                   par |-> [k \in 1..Len(kws) |-> <<kws[k], E1>>], pos |-> <<>>,
                   pk |-> IF H(r, 10 * i + 8, 3) = 0 THEN "Portnames" ELSE "ports",
                   lk |-> IF H(r, 10 * i + 9, 3) = 0 THEN "length" ELSE "L",
                   zk |-> IF H(r, 10 * i + 100, 3) = 0 THEN "Z" ELSE "Z0TL",
                   xk |-> IF H(r, 10 * i + 101, 3) = 0 THEN "xpos" ELSE "relpos"]
           new == SelectSeq([k \in 1..Len(ps) |-> ps[k].n], LAMBDA x : x # "" /\ x \notin Range1(used))
       IN MkBlocks(r, i + 1, n, Append(bs, blk), used \o new)
Bads == <<"extra", "missing", "renamed", "dup", "relpos", "noports", "bothports", "bothL", "bothx", "key", "nofile",
          "undef", "cycle">>
GtlOp(r, nid0) ==
  LET bs == MkBlocks(r, 1, 1 + H(r, 1, 5), <<>>, <<>>)
      m0 == [key |-> "VTL1", keys |-> <<"VTL1">>, exists |-> TRUE,
             zb |-> <<"50.0", "30.0", "20.0">>[1 + H(r, 2, 3)], pn |-> <<>>, rel |-> <<>>, blocks |-> bs,
             glo |-> <<>>, loc |-> <<>>, arg |-> <<>>,
             snp |-> IF H(r, 5, 5) = 0 THEN << [zb |-> "50.0", tab |-> <<>>] >> ELSE <<>>]
      free == SetToSeq(FreeOf(m0))
      nf == Len(free)
      k == 1 + H(r, 7, Len(bs))
      pn == [i \in 1..nf |-> free[1 + ((i + H(r, 6, nf)) % nf)]]
      hp == H(r, 3, 10)
      rel == IF hp < 3 THEN << <<pn[1], E1>> >> ELSE IF hp = 8 THEN [i \in 1..nf |-> <<pn[i], E1>>]
             ELSE IF hp = 9 THEN << <<pn[nf], E1>> >> ELSE <<>>
      bs2 == IF hp \in {3, 4, 5, 9} THEN [bs EXCEPT ![k].pos = <<E1>>] ELSE bs
      bad == IF H(r, 8, 100) < 14 THEN Bads[1 + H(r, 9, Len(Bads))] ELSE "none"
      m1 == [m0 EXCEPT !.pn = pn, !.rel = rel, !.blocks = bs2]
      m == CASE bad = "extra" -> [m1 EXCEPT !.pn = Append(pn, "zz")]
             [] bad = "missing" -> [m1 EXCEPT !.pn = IF nf > 1 THEN Tail(pn) ELSE <<"zz", "zy">>, !.rel = <<>>]
             [] bad = "renamed" -> [m1 EXCEPT !.pn = <<"zz">> \o Tail(pn), !.rel = <<>>]
             [] bad = "dup" -> [m1 EXCEPT !.pn = Append(pn, pn[1])]
             [] bad = "relpos" -> [m1 EXCEPT !.rel = Append(rel, <<"zz", E1>>)]
             [] bad = "noports" -> [m1 EXCEPT !.blocks[k].pk = "none"]
             [] bad = "bothports" -> [m1 EXCEPT !.blocks[k].pk = "both"]
             [] bad = "bothL" -> [m1 EXCEPT !.blocks[k].lk = "both"]
             [] bad = "bothx" -> [m1 EXCEPT !.blocks[k].xk = "both", !.blocks[k].pos = <<E1>>]
             [] bad = "key" -> [m1 EXCEPT !.key = "NONE"]
             [] bad = "nofile" -> [m1 EXCEPT !.exists = FALSE]
             [] OTHER -> m1
  IN IF nf = 0 THEN <<>>
     ELSE << [k |-> "gtl", m |-> m, bad |-> bad, ext |-> (H(r, 11, 2) = 0), r |-> r % 10000,
              nid |-> nid0 + Len(bs) + 1] >>
GGtl ==
  IF Cardinality(Circs) >= 6 \/ Len(heap) > 22 THEN {}
  ELSE UNION {{o[i] : i \in 1..Len(o)} : o \in {GtlOp(r, Len(heap)) : r \in {RandomElement(1..(999999 + 0 * Len(hist)))}}}
GGone == {[k |-> "gone", c |-> c, r |-> R4] : c \in Opt({c \in Circs : heap[c].gtl})}

\* parameters passed along with a use of an object are set on that object, so such an
\* object has one use only (else the order of evaluation would matter)
RECURSIVE Routes(_, _)
Routes(o, x) == IF o = x THEN 1
                ELSE IF heap[o].t = "leaf" THEN 0
                ELSE FoldSeq(LAMBDA b, acc : acc + Routes(b.obj, x), 0, heap[o].blocks)
WithPar(o) == \E c \in 1..Len(heap) : heap[c].t = "circ" /\ \E k \in 1..Len(heap[c].blocks) :
                 heap[c].blocks[k].obj = o /\ heap[c].blocks[k].par # <<>>

FreeNames(c) == {BNames[i] : i \in 1..Len(BNames)} \ BlkNames(heap[c])
Addable(c) == {o \in hand : o # c /\ ~WithPar(o) /\ c \notin Reach(heap, o) /\ Depth(o) <= 2
                /\ ObjNp(heap[o]) >= 1 /\ (heap[o].t = "leaf" \/ Whole(o))
                /\ NPts(c) + ObjNp(heap[o]) <= (IF Sim THEN 11 ELSE 4)
                /\ Size(o) <= 7}
\* prefer nested circuits when there are any
AddPick(c) == LET S == Addable(c)  N == {o \in S : heap[o].t = "circ"} IN
              IF Sim /\ N # {} /\ Chance(60) THEN N ELSE S
PFs(o) ==
  LET n == ObjNp(heap[o])  own == ObjPorts(heap[o]) IN
  {[k |-> "obj"]}
  \cup (IF Sim THEN {[k |-> "obj"], [k |-> "list", l |-> [i \in 1..n |-> "q" \o ToString(n + 1 - i)]],
                     [k |-> "fmt", s |-> "k"]} ELSE {})
  \cup (IF Sim /\ own # <<>> THEN {[k |-> "dict", m |-> << <<own[1], "g1">> >>],
                     [k |-> "dict", m |-> [i \in 1..n |-> <<own[i], "e" \o ToString(i)>>]]} ELSE {})
ParFor(o, p) == IF Sim /\ heap[o].t = "leaf" /\ heap[o].kind \in {"rlc", "trl"} /\ Chance(p) /\ Profile # "lossless"
                  /\ ~Used(o)
                THEN << <<Pick(Settable(heap[o])), "v">> >> ELSE <<>>
GAdd ==
  LET cs == {c \in Circs : Open(c) /\ FreeNames(c) # {} /\ Addable(c) # {}} IN
  UNION {UNION {UNION {
     {[k |-> "addblock", c |-> c, nm |-> nm, o |-> o, pf |-> pf, rp |-> Pick(RPs), r |-> R4,
       par |-> ParFor(o, 12)]
      : pf \in Opt(PFs(o))}
     : o \in Opt(AddPick(c))} : nm \in Opt(FreeNames(c))} : c \in Opt(cs)}

FreshNode(c) == {NNames[i] : i \in 1..Len(NNames)} \ Range1(Points(heap[c]))
SetToSeqRnd(s) ==
  LET RECURSIVE go(_)
      go(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o go(S \ {x})
  IN go(Range1(s))
Perm(s) == IF Sim /\ Len(s) > 1 THEN SetToSeqRnd(s) ELSE s
RndSub(S, lo, hi) ==     \* random subset as a random sequence
  LET k == Pick(lo..hi)
      RECURSIVE go(_, _)
      go(T, n) == IF n = 0 \/ T = {} THEN <<>>
                  ELSE LET x == Pick(T) IN <<x>> \o go(T \ {x}, n - 1)
  IN go(S, k)
GConnect ==
  LET cs == {c \in Circs : Open(c) /\ Len(heap[c].ports) >= 3}
      mk(c, olds, new, r) == [k |-> "connect", c |-> c, dot |-> FALSE, r |-> r,
          pts |-> IF new = "" THEN olds
                  ELSE LET i == r % (Len(olds) + 1) IN
                       SubSeq(olds, 1, i) \o <<new>> \o SubSeq(olds, i + 1, Len(olds))]
  IN IF Sim
     THEN {LET free == Range1(heap[c].ports)
               new == IF FreshNode(c) # {} /\ Chance(45) THEN Pick(FreshNode(c)) ELSE ""
               hi == IF new = "" THEN (IF Len(heap[c].ports) > 3 THEN 3 ELSE 2) ELSE 3
               olds == RndSub(free, IF new = "" THEN 2 ELSE 1, hi)
           IN mk(c, olds, new, R4) : c \in Opt(cs)}
     ELSE UNION {{mk(c, <<p, q>>, new, 7) : p \in {heap[c].ports[1]}, q \in Range1(Tail(heap[c].ports)),
                      new \in {""} \cup FreshNode(c)} : c \in cs}

GTerm ==
  LET cs == {c \in Circs : ~Used(c) /\ heap[c].pn = <<>> /\ Len(heap[c].ports) >= 2 /\ heap[c].snp = <<>>
                /\ (Profile # "lossless" \/ TRUE)}
      rs == {c \in Circs : heap[c].tm # <<>>}
      kvs == IF Sim THEN {<< <<"Z", "r">> >>, << <<"Z", "r">> >>, << <<"Y", "r">> >>, << <<"RC", "r">> >>}
                         \cup (IF Lossless THEN {} ELSE {<<>>})
             ELSE {<< <<"Z", "r">> >>}
      mk(c, p, kv) == [k |-> "terminate", c |-> c, pt |-> p, kv |-> kv, r |-> R4,
                       real |-> Chance(40), ll |-> Lossless, special |-> Chance(15)]
  IN (IF cs = {} THEN {} ELSE UNION {UNION {{mk(c, p, kv) : kv \in Opt(kvs)}
                                     : p \in Opt(Range1(heap[c].ports))} : c \in Opt(cs)})
GReTerm ==
  LET rs == {c \in Circs : heap[c].tm # <<>>}
      kvs == {<< <<"Z", "r">> >>, << <<"Y", "r">> >>, << <<"RC", "r">> >>}
  IN {[k |-> "terminate", c |-> c, pt |-> Pick(TermPts(heap[c])), kv |-> Pick(kvs), r |-> R4,
       real |-> Chance(40), ll |-> Lossless, special |-> Chance(15)] : c \in Opt(rs)}

GAnnounce ==
  LET cs == {c \in Circs : Open(c) /\ ~heap[c].frz /\ Whole(c) /\ Len(heap[c].ports) >= 2
               \* the real circuit is told at construction: no copies made before now
               /\ ~\E i \in 1..Len(hist) : hist[i].k = "replace"
                     \/ (hist[i].k = "copy" /\ c \in Reach(heap, hist[i].o))} IN
  {[k |-> "announce", c |-> c, pn |-> Perm(heap[c].ports), r |-> 1] : c \in Opt(cs)}

NoPar(c) == \A x \in Reach(heap, c) : heap[x].t = "circ" =>
              \A k \in 1..Len(heap[x].blocks) : heap[x].blocks[k].par = <<>>
\* asked before the announced ports are there (the driver knows what will be announced): refused
GEarly ==
  {[k |-> "early", c |-> c, f |-> Pick(FreqSet), r |-> R4] :
     c \in Opt({x \in Circs : Open(x) /\ ~heap[x].frz /\ heap[x].blocks # <<>> /\ NoPar(x)})}

GCopy ==
  LET os == {o \in hand : Len(heap) + Cardinality(Reach(heap, o)) <= 26} IN
  {[k |-> "copy", o |-> o, r |-> R4, nid |-> Copy(heap, o).id] :
     o \in Opt(IF Sim /\ Chance(80) THEN {x \in os : heap[x].t = "circ" /\ heap[x].blocks # <<>>} ELSE os)}

\* paths to blocks below circuit c, length up to 3
RECURSIVE Paths(_)
Paths(c) == IF heap[c].t # "circ" THEN {}
            ELSE UNION {{<<heap[c].blocks[k].nm>>}
                        \cup {<<heap[c].blocks[k].nm>> \o p : p \in Paths(heap[c].blocks[k].obj)}
                        : k \in 1..Len(heap[c].blocks)}
DeepFirst(S) == LET D == {p \in S : Len(p) >= 2} IN IF Sim /\ D # {} /\ Chance(70) THEN D ELSE S
GReplace ==
  LET cs == {c \in Circs : heap[c].blocks # <<>> /\ Len(heap) <= 22} IN
  UNION {UNION {
     {[k |-> "replace", c |-> c, path |-> p, o |-> o, r |-> R4, par |-> ParFor(o, 25)]
        : o \in Opt({x \in Leaves \cup {y \in Circs : Whole(y)} :
                       /\ c \notin Reach(heap, x) /\ ~WithPar(x)
                       /\ (ObjNp(heap[x]) = ObjNp(heap[FindObj(heap, c, p)]) \/ Chance(10))
                       /\ Depth(x) <= 1 })}
     : p \in Opt(DeepFirst(Paths(c)))} : c \in Opt(cs)}

GSet ==
  LET cs == {c \in Circs : \E p \in Paths(c) : Settable(heap[FindObj(heap, c, p)]) # {}}
      attrsOf(o, n) == RndSub(Settable(heap[o]), 1, n)
      forms == IF Sim THEN {"kw", "kwdot", "pair", "pairdict", "tuple", "tupledict", "pos", "pos2", "mixed"} ELSE {"kw"}
      one(c, p, n) == [path |-> p, av |-> LET at == attrsOf(FindObj(heap, c, p), n) IN
                        [i \in 1..Len(at) |-> <<at[i], IF Chance(20) THEN "same" ELSE "v">>]]
      good(c) == {p \in Paths(c) : Settable(heap[FindObj(heap, c, p)]) # {}}
      \* (in one request the same object may appear twice: the last value counts)
      two(c, p, form) == LET P2 == IF form \in {"kw", "kwdot", "pos"}
                                  THEN {q \in good(c) : q[1] # p[1] /\ FindObj(heap, c, q) # FindObj(heap, c, p)}
                                  ELSE good(c) IN
                   IF P2 # {} /\ Chance(30)
                   THEN <<one(c, p, 2), one(c, Pick(P2), 1)>> ELSE <<one(c, p, 2)>>
  IN UNION {UNION {{[k |-> "set", c |-> c, form |-> form, as |-> two(c, p, form), r |-> R4]
         : form \in Opt(forms)} : p \in Opt(DeepFirst(good(c)))} : c \in Opt(cs)}
GSetDirect ==
  {[k |-> "set", c |-> o, form |-> "direct", r |-> R4,
    as |-> <<[path |-> <<>>, av |-> LET at == RndSub(Settable(heap[o]), 1, 2) IN
                [i \in 1..Len(at) |-> <<at[i], IF Chance(20) THEN "same" ELSE "v">>]]>>]
     : o \in Opt({x \in Leaves : Settable(heap[x]) # {}})}

GDeembed ==
  LET cs == {c \in Circs : Open(c) /\ Len(heap[c].ports) >= 2}
      mk(c) == LET nw == {"d1", "d2", "dx", "dy", "e_1"} \ Range1(Points(heap[c]))
                   new(i) == IF Cardinality(nw) < 2 THEN "d" \o ToString(i) ELSE SetToSeq(nw)[i]
                   ps == Perm(heap[c].ports)
                   n == Len(ps)
                   ni == Pick(0..(IF n >= 3 THEN 2 ELSE 1))
                   left == n - ni
                   ne == IF left >= 3 /\ Chance(60) THEN 1 ELSE 0
               IN [k |-> "deembed", c |-> c, r |-> R4,
                   int |-> [i \in 1..ni |-> <<ps[i], new(i)>>],
                   ext |-> [i \in 1..ne |-> <<ps[ni + 2*i - 1], ps[ni + 2*i]>>]]
  IN {mk(c) : c \in Opt(cs)}

GLog == IF Len(hist) < 0 THEN {} ELSE {[k |-> "log", lvl |-> l, r |-> 1] :
           l \in Opt({"DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "5", "15", "25", "60"})}

\* invalid requests
GBad ==
  LET cs == {c \in Circs : heap[c].blocks # <<>> /\ ~Used(c)}
      settable(c) == {p \in Paths(c) : Settable(heap[FindObj(heap, c, p)]) # {}}
      ask(c, p) == [path |-> p, av |-> << <<Pick(Settable(heap[FindObj(heap, c, p)])), "v">> >>]
      op1(c) == LET free == Range1(heap[c].ports)
                    cons == ConsumedPts(heap[c]) \ TermPts(heap[c])
                    anyc == ConsumedPts(heap[c])
                    r == Rnd(13)
                    conn(pts, dot) == [k |-> "connect", c |-> c, dot |-> dot, r |-> R4, pts |-> pts]
                    tm(pt, kv) == [k |-> "terminate", c |-> c, pt |-> pt, kv |-> kv, r |-> R4,
                                   real |-> TRUE, ll |-> FALSE, special |-> FALSE]
                    zz == << <<"Z", "r">> >>
                    add(o, nm, pf) == [k |-> "addblock", c |-> c, nm |-> nm, o |-> o, pf |-> pf,
                                       rp |-> "0.0", r |-> R4, par |-> <<>>]
                    fr == IF free = {} THEN "zz" ELSE Pick(free)
                    lf == Pick(Leaves)
                    un == LET T == {o \in Leaves : ObjPorts(heap[o]) # <<>>} IN
                          IF T = {} THEN lf ELSE Pick(T)
                    fn == IF FreeNames(c) = {} THEN "extra" ELSE Pick(FreeNames(c))
                    op == heap[c].frz \/ ~Open(c)
                IN CASE r = 1 /\ anyc # {} -> conn(<<fr, Pick(anyc)>>, FALSE)
                     [] r = 2 -> conn(<<fr, "newx", "newy">>, FALSE)
                     [] r = 3 -> conn(<<fr, "new.x">>, TRUE)
                     [] r = 4 -> conn(<<fr, "Q.nope">>, TRUE)
                     [] r = 5 -> tm("nope", zz)
                     [] r = 6 /\ cons # {} -> tm(Pick(cons), zz)
                     [] r = 7 -> tm(fr, << <<"Z", "r">>, <<"Y", "r">> >>)
                     [] r = 8 -> tm(fr, << <<"X", "r">> >>)
                     [] r = 9 /\ ObjPorts(heap[un]) # <<>> -> add(un, fn, [k |-> "dict", m |-> << <<"nope", "x">> >>])
                     [] r = 10 -> add(lf, fn, [k |-> "list", l |-> [i \in 1..(ObjNp(heap[lf]) + 1) |-> "l" \o ToString(i)]])
                     [] r = 11 -> [k |-> "replace", c |-> c, path |-> <<heap[c].blocks[1].nm, "nope">>, o |-> lf, r |-> R4, par |-> <<>>]
                     [] r = 12 -> [k |-> "set", c |-> c, r |-> R4,
                                   form |-> Pick({"pair", "pairdict", "tuple", "tupledict", "pos2", "mixed"}),
                                   \* (a request that can be honoured may come with the one that cannot)
                                   as |-> (IF settable(c) # {} /\ Chance(60) THEN <<ask(c, Pick(settable(c)))>> ELSE <<>>)
                                          \o <<[path |-> Pick(Paths(c)), av |-> << <<"nope", "v">> >>]>>]
                     [] r = 13 /\ cons # {} /\ Open(c) /\ free # {} ->
                                  [k |-> "deembed", c |-> c, r |-> R4, ext |-> <<>>,
                                   int |-> << <<fr, "dd1">>, <<Pick(cons), "dd2">> >>]
                     [] OTHER -> conn(<<fr, "newx", "newy">>, FALSE)
      mism(c) == LET p == Pick(Paths(c))
                     T == {x \in Leaves : ObjNp(heap[x]) # ObjNp(heap[FindObj(heap, c, p)])}
                 IN IF T = {} THEN op1(c)
                    ELSE [k |-> "replace", c |-> c, path |-> p, o |-> Pick(T), r |-> R4, par |-> <<>>]
  IN IF Leaves = {} THEN {} ELSE {IF Chance(20) THEN mism(c) ELSE op1(c) : c \in Opt(cs)}

\* queries
QZ == IF Sim /\ Len(hist) >= 0 THEN Pick({"", "50.0", "30.0", "17.5"}) ELSE ""
BestCs == LET S == {c \in Circs : Ready(c)}
              D == {c \in S : Depth(c) >= 2}
          IN IF Sim /\ D # {} /\ Chance(55) THEN D ELSE S
GGetS ==
  LET os == IF Chance(12) THEN {o \in Leaves : heap[o].kind # "arr"} ELSE BestCs
      vec(o) == IF (Profile = "vec" /\ Chance(80)) \/ Chance(15) THEN Pick({"list", "array"}) ELSE "one"
      fss(v) == IF v = "one" THEN <<Pick(FreqSet)>>
                ELSE [i \in 1..Pick(1..4) |-> Pick(FreqSet)]
      par(o) == IF Sim /\ heap[o].t = "leaf" /\ heap[o].kind \in {"rlc", "trl"} /\ Chance(25) /\ ~Lossless
                THEN << <<"", << <<Pick(Settable(heap[o])), "v">> >> >> >>
                ELSE IF Sim /\ heap[o].t = "circ" /\ Chance(12) /\ ~Lossless
                THEN LET T == {k \in 1..Len(heap[o].blocks) :
                                 LET x == heap[heap[o].blocks[k].obj] IN
                                 heap[o].blocks[k].par = <<>> /\ Routes(o, heap[o].blocks[k].obj) = 1 /\ x.t = "leaf" /\ x.kind \in {"rlc", "trl"}}
                     IN IF T = {} THEN <<>>
                        ELSE LET b == heap[o].blocks[Pick(T)]
                             IN << <<b.nm, << <<Pick(Settable(heap[b.obj])), "v">> >> >> >>
                ELSE <<>>
  IN {LET v == vec(o) IN
      [k |-> "getS", o |-> o, zb |-> QZ, vec |-> v, fs |-> fss(v), r |-> R4, par |-> par(o),
       gtl |-> (heap[o].t = "circ" /\ heap[o].gtl /\ Chance(25)),
       fl |-> IF Sim /\ heap[o].t = "circ" /\ Chance(IF Tabled(heap, o) THEN 40 ELSE 15)
              THEN << <<Pick({"x", "sNp"}), Pick({"T", "F"})>> >> ELSE <<>>]
      : o \in Opt(os)}

RECURSIVE NodeKeys(_, _)
NodeKeys(c, pre) ==
  {pre \o p : p \in Range1(Points(heap[c]))}
  \cup UNION {IF heap[heap[c].blocks[k].obj].t = "circ"
              THEN NodeKeys(heap[c].blocks[k].obj, pre \o heap[c].blocks[k].nm \o ".") ELSE {}
              : k \in 1..Len(heap[c].blocks)}
GSol ==
  {LET sel == Pick({"all", "all", "none", "some"}) IN
   [k |-> "solution", c |-> c, f |-> Pick(FreqSet), zb |-> QZ, r |-> R4, sel |-> sel,
    nodes |-> IF sel = "some" THEN RndSub(NodeKeys(c, ""), 1, 3) ELSE <<>>] : c \in Opt(BestCs)}
GSolve == {[k |-> "solve", c |-> c, f |-> Pick(FreqSet), zb |-> QZ, r |-> R4] : c \in Opt(BestCs)}
GMaxV ==
  {[k |-> "maxV", c |-> c, f |-> Pick(FreqSet), zb |-> QZ, r |-> R4,
    Id |-> IF Chance(70) THEN "top" ELSE "",
    sc |-> IF Chance(40) THEN Pick({"2.5", "0.001", "3"}) ELSE ""] : c \in Opt(BestCs)}
\* the nodes of c at all levels, as <<path of blocks, point>>
RECURSIVE NodeRefs(_, _)
NodeRefs(c, pre) ==
  {<<pre, p>> : p \in Range1(Points(heap[c]))}
  \cup UNION {IF heap[heap[c].blocks[k].obj].t = "circ"
              THEN NodeRefs(heap[c].blocks[k].obj, Append(pre, heap[c].blocks[k].nm)) ELSE {}
              : k \in 1..Len(heap[c].blocks)}
\* looking around: a path below c (now and then one that is not there), nodes, a frequency to try the object
GNav ==
  {LET ps == Paths(c)
       p == Pick(DeepFirst(ps))
       bad == Pick({"none", "none", "none", "none", "below", "first", "last"})
   IN [k |-> "nav", c |-> c, f |-> Pick(FreqSet), zb |-> QZ, r |-> R4, bad |-> bad,
       path |-> CASE bad = "below" -> Append(p, "zz")
                  [] bad = "first" -> <<"zz">> \o p
                  [] bad = "last" -> SubSeq(p, 1, Len(p) - 1) \o <<"zz">>
                  [] OTHER -> p,
       nodes |-> RndSub(NodeRefs(c, <<>>), 1, 4)]
   : c \in Opt({x \in Circs : heap[x].blocks # <<>> /\ Size(x) <= 14})}
\* printing an object or a circuit
GShow ==
  {[k |-> "show", o |-> o, r |-> R4, how |-> Pick({"str", "asstr", "asstr"}), full |-> Pick({-1, -1, 0, 1, 2})]
   : o \in IF Chance(20) THEN {o \in Leaves : heap[o].kind # "arr"} ELSE Circs}
GIntS ==
  {LET n == Len(heap[c].ports)
       m == IF Chance(10) THEN n + 1 ELSE IF n > 1 /\ Chance(25) THEN n - 1 ELSE n
       nd == RndSub(NodeKeys(c, ""), m, m)
   IN [k |-> "intS", c |-> c, f |-> Pick(FreqSet), zb |-> QZ, r |-> R4,
       nodes |-> [i \in 1..Len(nd) |-> IF Chance(35) THEN "<" \o nd[i] ELSE nd[i]],
       raw |-> nd] : c \in Opt({x \in BestCs : Len(heap[x].ports) <= 4 /\ Cardinality(NodeKeys(x, "")) > Len(heap[x].ports)})}

-----------------------------------------------------------------------------
\* which operation comes next, by phase of the walk and profile
Build == <<"add", "add", "add", "connect", "connect", "connect", "term", "circ">>
Query == <<"getS", "getS", "getS", "solution", "maxV", "solve">>
Edit == <<"set", "set", "setd", "reterm", "term">>
Weights ==
  LET n == Len(hist) IN
  IF ~Sim THEN <<"leaf", "circ", "add", "connect", "term", "copy", "replace">>
  ELSE IF n < 4 THEN <<"leaf">>
  ELSE IF n < 6 THEN <<"circ">>
  ELSE IF Profile = "gtl" /\ n < 9 THEN <<"gtl">>
  ELSE IF n < 10 THEN <<"add", "add", "connect">>
  ELSE IF n < 20 THEN Build \o <<"leaf">>
            \o (CASE Profile = "deembed" -> <<"deembed", "deembed", "deembed">>
                  [] Profile = "bad" -> <<"bad", "bad", "bad", "early", "announce">>
                  [] Profile = "ports" -> <<"announce", "announce", "copy", "early", "early">>
                  [] Profile = "nav" -> <<"nav", "announce", "deembed">>
                  [] Profile = "show" -> <<"show", "show", "announce", "deembed">>
                  [] Profile = "copy" -> <<"copy", "announce">>
                  [] OTHER -> <<"announce">>)
  ELSE CASE Profile = "assembly" -> Build \o Query \o <<"getS", "getS", "announce">>
         [] Profile = "history"  -> Query \o Query \o Edit \o <<"replace", "copy", "intS", "connect", "connect", "add", "deembed", "show">>
         [] Profile = "ports"    -> Build \o <<"getS", "term", "term", "copy", "maxV", "reterm">>
         [] Profile = "solution" -> <<"solution", "solution", "solution", "solution", "intS", "set", "term", "reterm", "add">>
         [] Profile = "copy"     -> <<"copy", "copy">> \o Query \o Edit \o <<"replace", "replace", "connect", "add">>
         [] Profile = "replace"  -> <<"replace", "replace", "replace", "getS", "getS", "solution", "maxV", "set", "copy">>
         [] Profile = "set"      -> <<"set", "set", "set", "set", "setd", "getS", "getS", "getS", "solution", "maxV">>
         [] Profile = "bad"      -> <<"bad", "bad", "bad", "bad", "getS", "getS", "connect", "add", "solution", "maxV", "set">>
         [] Profile = "vec"      -> <<"getS", "getS", "getS", "getS", "set", "maxV", "solution">>
         [] Profile = "deembed"  -> <<"getS", "getS", "solution", "copy", "set", "maxV", "deembed", "connect">>
         [] Profile = "maxv"     -> <<"maxV", "maxV", "maxV", "maxV", "solution", "set", "reterm", "replace", "connect">>
         [] Profile = "ints"     -> <<"intS", "intS", "intS", "intS", "getS", "set", "term">>
         [] Profile = "nav"      -> <<"nav", "nav", "nav", "nav", "nav", "getS", "set", "setd", "copy", "replace", "replace", "circ", "add",
                                      "connect", "term", "deembed", "show">>
         [] Profile = "show"     -> <<"show", "show", "show", "show", "show", "getS", "solution", "set", "copy", "replace", "circ", "add",
                                      "connect", "term", "deembed">>
         [] Profile = "lossless" -> <<"getS", "getS", "getS", "solution", "solution", "set", "add", "connect", "term", "reterm", "reterm">>
         [] Profile = "passive"  -> <<"term", "term", "reterm", "reterm", "reterm", "getS", "getS", "getS", "getS", "solution", "set", "connect">>
         [] Profile = "gtl"      -> <<"gtl", "gtl", "getS", "getS", "getS", "getS", "solution", "maxV", "maxV", "copy", "gone", "set",
                                      "replace", "add", "connect", "term", "intS", "reterm", "setd", "nav", "nav", "show">>
         [] Profile = "log"      -> Query \o Edit \o <<"log", "log", "intS", "bad", "copy", "replace", "show">>
         [] OTHER                -> Query \o Edit \o <<"replace", "copy", "intS", "bad", "log">>

Gen(kind) ==
  CASE kind = "leaf" -> GLeaf [] kind = "circ" -> GCirc [] kind = "add" -> GAdd
    [] kind = "connect" -> GConnect [] kind = "term" -> GTerm [] kind = "reterm" -> GReTerm
    [] kind = "announce" -> GAnnounce [] kind = "early" -> GEarly [] kind = "copy" -> GCopy [] kind = "replace" -> GReplace
    [] kind = "set" -> GSet [] kind = "setd" -> GSetDirect [] kind = "deembed" -> GDeembed
    [] kind = "log" -> GLog [] kind = "gtl" -> GGtl [] kind = "gone" -> GGone [] kind = "bad" -> GBad [] kind = "getS" -> GGetS
    [] kind = "solution" -> GSol [] kind = "solve" -> GSolve [] kind = "maxV" -> GMaxV
    [] kind = "intS" -> GIntS [] kind = "nav" -> GNav [] kind = "show" -> GShow [] OTHER -> {}

LeafOf(op) ==
  [t |-> "leaf", kind |-> op.kind, np |-> op.np, ports |-> op.ports,
   xpos |-> [i \in 1..op.np |-> <<"x" \o ToString(op.nid) \o "_" \o ToString(i)>>],
   zb |-> "50.0", p |-> [a \in {"Rs", "Ls", "Cs", "Rp", "Lp", "Cp", "L", "Larc"} |-> "0"],
   tab |-> <<>>]

Apply(op) ==
  CASE op.k = "leaf" -> Res(TRUE, Append(heap, LeafOf(op)))
    [] op.k = "circ" -> Res(TRUE, Append(heap, NewCirc(op.zb, <<>>)))
    [] op.k = "gtl" -> IF op.bad # "none" THEN Res(FALSE, heap) ELSE GtlBuild(heap, op)
    [] op.k = "announce" -> Res(TRUE, [heap EXCEPT ![op.c].pn = op.pn])
    [] op.k = "addblock" -> AddBlock(heap, op)
    [] op.k = "connect" -> Connect(heap, op)
    [] op.k = "terminate" -> Terminate(heap, op)
    [] op.k = "deembed" -> Deembed(heap, op)
    [] op.k = "copy" -> Res(TRUE, Copy(heap, op.o).h)
    [] op.k = "replace" -> Replace(heap, op.c, op.path, op.o, op.par)
    [] op.k = "set" -> Set(heap, op)
    [] op.k = "getS" -> Res(TRUE, Evaluated(heap, op.o))
    [] op.k \in {"solution", "solve", "maxV", "intS"} -> Res(TRUE, Evaluated(heap, op.c))
    [] op.k = "nav" -> Res(TRUE, Navigated(heap, op))
    [] OTHER -> Res(TRUE, heap)

Init == heap = <<>> /\ hist = <<>> /\ hand = {} /\ lvl = 0

Do(op) == LET r == Apply(op) IN
  /\ heap' = r.h
  /\ hist' = Append(hist, op)
  /\ hand' = IF r.ok /\ op.k \in {"leaf", "circ", "copy", "gtl"} THEN hand \cup {op.nid} ELSE hand
  /\ lvl' = lvl

\* the walk ends with an audit: every circuit in hand is asked once more
Audit == LET cs == SetToSeq({c \in Circs : Ready(c)}) IN
  [i \in 1..Len(cs) |-> [k |-> "getS", o |-> cs[i], zb |-> "", vec |-> "one",
                         fs |-> <<Freqs[1 + (i % 4)]>>, r |-> 1, par |-> <<>>, fl |-> <<>>, gtl |-> FALSE]]
Done == Len(hist) >= MaxOps
Next ==
  IF Done THEN Sim /\ PrintT("@@" \o ToJson(hist \o Audit)) /\ FALSE /\ UNCHANGED vars
  ELSE IF Sim
  THEN \E w \in {Weights} : \E kind \in {w[RandomElement(1..Len(w))]} :
         \E ops \in {Gen(kind)} :
           IF ops = {} THEN \E o2 \in {GGetS \cup GAdd \cup GLeaf} :
                  IF o2 = {} THEN UNCHANGED vars ELSE \E op \in {Pick(o2)} : Do(op)
           ELSE \E op \in {Pick(ops)} : Do(op)
  ELSE \E kind \in Range1(Weights) : \E op \in Gen(kind) : Do(op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* invariants of the model itself
PortsAreUnconsumed ==
  \A o \in 1..Len(heap) : heap[o].t = "circ" =>
     /\ Range1(heap[o].ports) = Range1(Points(heap[o])) \ ConsumedPts(heap[o])
     /\ NoDup(heap[o].ports)
     /\ Len(heap[o].xp) = Len(heap[o].ports)
PositionsDefined ==
  \A o \in 1..Len(heap) : heap[o].t = "circ" =>
     \A i \in 1..Len(heap[o].xp) : heap[o].xp[i] # <<>>
\* what the user can reach from one copy never overlaps another one unless shared on purpose
WellFounded ==
  \A o \in 1..Len(heap) : heap[o].t = "circ" =>
     \A k \in 1..Len(heap[o].blocks) :
        LET b == heap[o].blocks[k] IN
        /\ b.obj \in 1..Len(heap) /\ b.obj # o
        /\ Len(b.ports) = ObjNp(heap[b.obj])
=============================================================================
