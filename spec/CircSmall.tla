------------------------------ MODULE CircSmall ------------------------------
(***************************************************************************)
(* All histories of a small instance: a fixed construction (Story), then   *)
(* every sequence of Deep operations out of everything that is possible    *)
(* there, then the audit of CircGen.  TLC enumerates them exhaustively and *)
(* checks the invariants of CircGen in every state; every one of them is   *)
(* replayed on the real library.                                           *)
(***************************************************************************)
EXTENDS CircGen
CONSTANTS Story, Deep

F1 == "37500000.0"
F2 == "55000000.0"
LeafOp(kind, n, nid) == [k |-> "leaf", kind |-> kind, np |-> n, cp |-> FALSE, cx |-> FALSE, ll |-> FALSE, rec |-> TRUE, r |-> 10 + nid, nid |-> nid,
   ports |-> CASE kind = "rlc" -> <<"s", "p">> [] kind = "trl" -> <<"1", "2">> [] OTHER -> SubSeq(<<"u", "v1", "w", "z9">>, 1, n)]
CircOp(nid, zb) == [k |-> "circ", zb |-> zb, Id |-> "K" \o ToString(nid), r |-> nid, nid |-> nid]
AddOp(c, nm, o, rp) == [k |-> "addblock", c |-> c, nm |-> nm, o |-> o, pf |-> [k |-> "obj"], rp |-> rp, r |-> 5, par |-> <<>>]
ConOp(c, pts) == [k |-> "connect", c |-> c, dot |-> FALSE, r |-> 5, pts |-> pts]
TermOp(c, p, key) == [k |-> "terminate", c |-> c, pt |-> p, kv |-> << <<key, "r">> >>, r |-> 5, real |-> FALSE, ll |-> FALSE, special |-> FALSE]

\* shared: M uses the circuit K twice; K has two elements, a third one is there to be used
\* deep: three levels, the middle one also used by a second circuit
\* flat: one circuit with an open port, ready for more construction
Setup ==
  CASE Story = "shared" -> <<LeafOp("rlc", 2, 1), LeafOp("trl", 2, 2), LeafOp("rlc", 2, 3), CircOp(4, "50.0"), CircOp(5, "30.0"),
         AddOp(4, "A", 1, "0.0"), AddOp(4, "B", 2, "1.25"), ConOp(4, <<"A.p", "B.1">>),
         AddOp(5, "P", 4, "0.0"), AddOp(5, "Q", 4, "3.0"), ConOp(5, <<"P.B.2", "Q.A.s", "n">>)>>
    [] Story = "deep" -> <<LeafOp("rlc", 2, 1), LeafOp("rlc", 2, 2), CircOp(3, "50.0"), CircOp(4, "30.0"), CircOp(5, "75.0"), CircOp(6, "50.0"),
         AddOp(3, "A", 1, "0.0"), AddOp(4, "B", 3, "1.25"), AddOp(5, "T", 4, "0.0"), AddOp(6, "U", 4, "-0.5")>>
    [] OTHER -> <<LeafOp("tab", 3, 1), LeafOp("rlc", 2, 2), LeafOp("trl", 2, 3), CircOp(4, "50.0"),
         AddOp(4, "A", 1, "0.0"), AddOp(4, "B", 2, "1.25"), ConOp(4, <<"A.u", "B.s">>)>>

Qs == {o \in Circs : Ready(o)}
LeafPaths(c) == {p \in Paths(c) : heap[FindObj(heap, c, p)].t = "leaf" /\ Settable(heap[FindObj(heap, c, p)]) # {}}
Attr(o) == LET S == Settable(heap[o]) IN IF "L" \in S THEN "L" ELSE IF "Ls" \in S THEN "Ls" ELSE CHOOSE x \in S : TRUE
Menu ==
  {[k |-> "getS", o |-> o, zb |-> z, vec |-> "one", fs |-> <<f>>, r |-> 1, par |-> <<>>, fl |-> <<>>, gtl |-> FALSE]
      : o \in Qs, f \in {F1, F2}, z \in {""}}
  \cup {[k |-> "solution", c |-> c, f |-> F1, zb |-> "30.0", r |-> 1, sel |-> "all", nodes |-> <<>>] : c \in Qs}
  \cup UNION {{[k |-> "set", c |-> c, form |-> "kw", r |-> 1, as |-> <<[path |-> p, av |-> << <<Attr(FindObj(heap, c, p)), "v">> >>]>>]
      : p \in LeafPaths(c)} : c \in Circs}
  \cup {[k |-> "set", c |-> o, form |-> "direct", r |-> 1, as |-> <<[path |-> <<>>, av |-> << <<Attr(o), "v">> >>]>>]
      : o \in {x \in Leaves : Settable(heap[x]) # {}}}
  \cup {[k |-> "copy", o |-> c, r |-> 1, nid |-> Copy(heap, c).id] : c \in {x \in Circs : ~Used(x) \/ Story = "deep"}}
  \cup UNION {UNION {{[k |-> "replace", c |-> c, path |-> p, o |-> o, r |-> 1, par |-> <<>>]
      : o \in {x \in Leaves : ObjNp(heap[x]) = ObjNp(heap[FindObj(heap, c, p)]) /\ x # FindObj(heap, c, p) /\ Len(p) = 2 - (IF Story = "flat" THEN 1 ELSE 0)}}
      : p \in Paths(c)} : c \in Circs}
  \cup UNION {{TermOp(c, p, "Z") : p \in IF ~Used(c) /\ heap[c].pn = <<>> /\ Len(heap[c].ports) >= 2 THEN Range1(heap[c].ports) ELSE {}} : c \in Circs}
  \cup UNION {{TermOp(c, p, "Y") : p \in TermPts(heap[c])} : c \in Circs}
  \cup (IF Story # "flat" THEN {} ELSE
        UNION {IF ~Open(c) \/ Len(heap[c].ports) < 3 THEN {}
               ELSE {ConOp(c, <<p, q>> \o nw) : p \in {heap[c].ports[1]}, q \in Range1(Tail(heap[c].ports)), nw \in {<<>>} \cup (IF FreshNode(c) = {} THEN {} ELSE {<<"n">>})} : c \in Circs}
        \cup {AddOp(c, "B2", 3, "1.25") : c \in {x \in Circs : Open(x) /\ "B2" \notin BlkNames(heap[x])}}
        \cup {[k |-> "announce", c |-> c, pn |-> Reverse(heap[c].ports), r |-> 1] : c \in {x \in Circs : Open(x) /\ ~heap[x].frz /\ Len(heap[x].ports) >= 2
                 /\ ~\E i \in 1..Len(hist) : hist[i].k = "replace" \/ (hist[i].k = "copy" /\ x \in Reach(heap, hist[i].o))}}
        \cup {[k |-> "deembed", c |-> c, r |-> 1, int |-> << <<heap[c].ports[1], "d1">> >>, ext |-> <<>>] :
                 c \in {x \in Circs : Open(x) /\ Len(heap[x].ports) >= 2 /\ "d1" \notin Range1(Points(heap[x]))}}
        \cup {[k |-> "maxV", c |-> c, f |-> F1, zb |-> "", r |-> 1, Id |-> "top", sc |-> ""] : c \in Qs})

SAudit == LET cs == SetToSeq({c \in Circs : Ready(c)}) IN
  Audit \o [i \in 1..Len(cs) |-> [k |-> "solution", c |-> cs[i], f |-> F2, zb |-> "", r |-> 2, sel |-> "all", nodes |-> <<>>]]
SNext ==
  IF Len(hist) >= Len(Setup) + Deep THEN PrintT("@@" \o ToJson(hist \o SAudit)) /\ FALSE /\ UNCHANGED vars
  ELSE IF Len(hist) < Len(Setup) THEN Do(Setup[Len(hist) + 1])
  ELSE \E op \in Menu : Do([op EXCEPT !.r = 100 + Len(hist)])
SSpec == Init /\ [][SNext]_vars
=============================================================================
