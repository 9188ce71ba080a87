------------------------------ MODULE ShowTrace ------------------------------
(***************************************************************************)
(* Judges what is shown: everything printed, plotted and pointed out is    *)
(* the value of the tree, matrix or curve at that moment, at its place,    *)
(* and showing it changes nothing.                                         *)
(***************************************************************************)
EXTENDS CNum, FiniteSets, SequencesExt, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, st

Has(r, f) == f \in DOMAIN r
Close(t, z, tol) == CClose(CStr(t), z, tol)        \* a printed number and a value
Abs(p) == CAbs(CPair(p))
\* the same number written by repr: only rounding
Same(t, z) == CLe(CAbs(CSub(CStr(t), z)), CMul(CStr("1e-12"), CAdd(C1, CAbs(z))))
P3 == CStr("0.000500001")

RECURSIVE TimesTree(_, _)
TimesTree(t, s) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.v = [j \in 1..Len(@) |-> CMul(@[j], s)], !.sub = TimesTree(@, s)]]
\* recorded tree -> values
RECURSIVE Numbers(_)
Numbers(t) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.v = [j \in 1..Len(@) |-> CPair(@[j])], !.sub = Numbers(@)]]
RECURSIVE SameTree(_, _)
SameTree(rec, t) == /\ Len(rec) = Len(t)
   /\ \A i \in 1..Len(t) : /\ rec[i].key = t[i].key /\ rec[i].kind = t[i].kind /\ rec[i].x = t[i].x /\ Len(rec[i].v) = Len(t[i].v)
                           /\ \A j \in 1..Len(t[i].v) : CLe(CAbs(CSub(CPair(rec[i].v[j]), t[i].v[j])), CMul(CStr("1e-12"), CAdd(C1, CAbs(t[i].v[j]))))
                           /\ SameTree(rec[i].sub, t[i].sub)

-----------------------------------------------------------------------------
\* strVSW: the lines
KeyLine(ind, e) == [ind |-> ind, txt |-> e.key, no |-> "", x |-> "", v |-> C0]
RECURSIVE Printed(_, _)
Entry(ind, e) ==
  <<KeyLine(ind, e)>> \o
  (IF e.kind = "sub" THEN Printed(e.sub, ind + 1)
   ELSE IF e.kind = "port" THEN << [ind |-> 0, txt |-> "", no |-> "port", x |-> "None", v |-> CAbs(e.v[1])] >>
   ELSE [j \in 1..Len(e.v) |-> [ind |-> 0, txt |-> "", no |-> ToString(j), x |-> e.x[j], v |-> CAbs(e.v[j])]])
Printed(t, ind) == IF t = <<>> THEN <<>> ELSE Entry(ind, Head(t)) \o Printed(Tail(t), ind)
LineOK(l, w) == /\ l.ind = w.ind /\ l.txt = w.txt /\ l.no = w.no
                /\ IF w.no = "" THEN TRUE
                   ELSE /\ (IF w.x = "None" THEN l.x = "None" ELSE l.x # "None" /\ Close(l.x, CStr(w.x), P3))
                        /\ Close(l.v, w.v, P3)
StrOK(res, t, ind) == LET w == Printed(t, ind) IN Len(res.lines) = Len(w) /\ \A k \in 1..Len(w) : LineOK(res.lines[k], w[k])

\* str_dict: the outline
O(key, kind, n, x) == [key |-> key, kind |-> kind, n |-> n, x |-> x]
RECURSIVE Outlined(_)
OutEntry(e) ==
  CASE e.kind = "sub" -> <<O(e.key, "sub", 0, <<>>)>> \o Outlined(e.sub) \o <<O("", "},", 0, <<>>)>>
    [] e.kind = "line" -> <<O(e.key, "line", Len(e.x), <<e.x[1], Last(e.x)>>)>>
    [] e.kind \in {"node", "free"} -> <<O(e.key, "node", 1, e.x)>>
    [] OTHER -> <<O(e.key, "other", 0, <<>>)>>
Outlined(t) == IF t = <<>> THEN <<>> ELSE OutEntry(Head(t)) \o Outlined(Tail(t))
OutlineOK(res, t) ==
  LET w == <<O("", "{", 0, <<>>)>> \o Outlined(t) \o <<O("", "},", 0, <<>>), O("", "", 0, <<>>)>>
  IN /\ Len(res.lines) = Len(w)
     /\ \A k \in 1..Len(w) : LET l == res.lines[k] IN
          /\ l.key = w[k].key /\ l.kind = w[k].kind /\ l.n = w[k].n /\ Len(l.x) = Len(w[k].x)
          /\ \A j \in 1..Len(l.x) : IF w[k].x[j] = "None" THEN l.x[j] = "None" ELSE l.x[j] # "None" /\ Close(l.x[j], CStr(w[k].x[j]), CStr("0.0000500001"))

\* plotVSWs: one line per entry that varies, one mark per node when asked for
RECURSIVE Leaves(_, _, _)
Leaves(t, lev, path) == IF t = <<>> THEN <<>>
   ELSE LET e == Head(t) p == IF path = "" THEN e.key ELSE path \o "." \o e.key IN
        (IF e.kind = "sub" THEN Leaves(e.sub, lev + 1, p)
         ELSE IF e.kind = "port" THEN <<>>
         ELSE <<[lev |-> lev, path |-> p, key |-> e.key, kind |-> e.kind, x |-> e.x, v |-> [j \in 1..Len(e.v) |-> CAbs(e.v[j])]]>>)
        \o Leaves(Tail(t), lev, path)
Varies(e) == e.kind = "line" /\ ((\E j \in 2..Len(e.x) : ~CEq(CStr(e.x[j]), CStr(e.x[1]))) \/ \E j \in 2..Len(e.v) : ~Same(CText(e.v[j]), e.v[1]))
Label(e, maxlev) == IF e.lev >= maxlev THEN "_" ELSE IF SubSeq(e.key, 1, 1) = "_" THEN " " \o e.key ELSE e.key
Drawn(t, ev) == SelectSeq(Leaves(t, 1, ""), LAMBDA e : Varies(e) \/ (ev.pn /\ e.x[1] # "None"))
\* (a constant line has no extent: it is marked like a node)
CurveOK(l, e, ev) ==
  LET lab == Label(e, IF ev.ml < 0 THEN 4 ELSE ev.ml) IN
  /\ (IF lab = "_" THEN SubSeq(l.label, 1, 1) = "_" ELSE l.label = lab)
  /\ Len(l.xs) = Len(e.x) /\ Len(l.ys) = Len(e.v)
  /\ \A j \in 1..Len(e.x) : Same(l.xs[j], CStr(e.x[j])) /\ Same(l.ys[j], e.v[j])
  /\ l.joined = Varies(e) /\ l.dots = (IF Varies(e) THEN ev.pp ELSE TRUE)
PlotOK(ev, t) ==
  LET w == TLCEval(Drawn(t, ev)) res == ev.res IN
  /\ Len(res.lines) = Len(w) /\ \A k \in 1..Len(w) : CurveOK(res.lines[k], w[k], ev)
  /\ res.xlabel = "x [m]" /\ res.ylabel = "U [kV]"
  /\ (ev.id = "id" => res.title = "V at $f_0$") /\ (ev.id = "none" /\ Len(t) = 1 => res.title = t[1].key)
  /\ (ev.fresh => res.notes = <<>>)

\* the pointer: the nearest point of anything that has a position
D2(x, y, px, py, ks) == CAdd(CSq(CSub(x, px)), CSq(CMul(ks, CSub(y, py))))
Nearest(e, px, py, ks) ==          \* of one entry: [d2, x, y] for each of its segments
  LET pt(j) == [d2 |-> D2(CStr(e.x[j]), e.v[j], px, py, ks), x |-> CStr(e.x[j]), y |-> e.v[j]]
      seg(j) == LET x1 == CStr(e.x[j]) x2 == CStr(e.x[j + 1]) y1 == e.v[j] y2 == e.v[j + 1]
                    den == D2(x1, y1, x2, y2, ks)
                    num == CAdd(CMul(CSub(px, x1), CSub(x2, x1)), CMul(CSq(ks), CMul(CSub(py, y1), CSub(y2, y1))))
                    q == IF CLe(den, C0) THEN C0 ELSE CMax2(C0, CMin2(C1, CDiv(num, den)))
                    x == CAdd(x1, CMul(q, CSub(x2, x1))) y == CAdd(y1, CMul(q, CSub(y2, y1)))
                IN [d2 |-> D2(x, y, px, py, ks), x |-> x, y |-> y]
  IN IF Len(e.x) = 1 THEN <<pt(1)>> ELSE [j \in 1..(Len(e.x) - 1) |-> seg(j)]
PointedOK(pt, notes, t, before) ==
  IF ~pt.inside THEN notes = before
  ELSE LET es == SelectSeq(Leaves(t, 1, ""), LAMBDA e : e.x[1] # "None")
           px == CStr(pt.at[1]) py == CStr(pt.at[2]) ks == CDiv(CStr(pt.span[1]), CStr(pt.span[2]))
           near == TLCEval([i \in 1..Len(es) |-> Nearest(es[i], px, py, ks)]) IN
       IF es = <<>> THEN notes = <<>>
       ELSE /\ Len(notes) >= 1
            /\ \A m \in 1..Len(notes) : LET n == notes[m] IN
                 \E i \in 1..Len(es) : /\ es[i].path = n.id
                    /\ \E j \in 1..Len(near[i]) :
                         /\ \A i2 \in 1..Len(es) : \A j2 \in 1..Len(near[i2]) :
                              CLe(CMul(near[i][j].d2, CStr("0.999999")), CAdd(near[i2][j2].d2, CMul(CStr("1e-14"), CSq(CStr(pt.span[1])))))
                         /\ Close(n.v, near[i][j].y, CAdd(P3, CMul(CStr("1e-4"), CStr(pt.span[2]))))
                         /\ Close(n.y, near[i][j].y, CMul(CStr("1e-4"), CStr(pt.span[2])))
                         /\ Close(n.x, near[i][j].x, CMul(CStr("1e-4"), CStr(pt.span[1])))
                         /\ Close(n.v, CStr(n.y), P3)
HoverOK(ev, t, before) ==
  /\ Len(ev.res.notes) = Len(ev.pts)
  /\ \A i \in 1..Len(ev.pts) : PointedOK(ev.pts[i], ev.res.notes[i], t, IF i = 1 THEN before ELSE ev.res.notes[i - 1])

-----------------------------------------------------------------------------
\* matrices
Turn(d) == LET k == CFloor(CAdd(CDiv(d, CInt(360)), CRat(1, 2))) IN CAbs(CSub(d, CMul(CInt(360), k)))
Deg(z) == CMul(CDiv(CInt(180), CPi), CArg(z))
CellOK(c, z, ev) ==
  IF ev.z # "none" /\ CLt(CAbs(z), CStr("1e-7")) THEN c.z
  ELSE /\ ~c.z
       /\ CASE ev.f \in {"strM", "printM", "printRI"} -> Close(c.a, CRe(z), P3) /\ Close(c.b, CIm(z), P3)
            [] ev.f = "printR" -> Close(c.a, CRe(z), P3)
            [] ev.f = "printMA" -> Close(c.a, CAbs(z), CStr("0.00000500001")) /\ (CLt(CAbs(z), CStr("1e-30")) \/ CLe(Turn(CSub(CStr(c.b), Deg(z))), CStr("0.00500001")))
            [] OTHER -> Close(c.a, CMul(CInt(20), CRe(CDiv(CLog(CAbs(z)), CLog(CInt(10))))), P3) /\ CLe(Turn(CSub(CStr(c.b), Deg(z))), CStr("0.0500001"))
MatOK(ev) ==
  LET res == ev.res IN
  /\ res.head = <<ev.n, ev.m>> /\ res.blank /\ res.rest /\ Len(res.rows) = ev.n
  /\ \A i \in 1..ev.n : /\ Len(res.rows[i]) = ev.m
                        /\ \A j \in 1..ev.m : CellOK(res.rows[i][j], CPair(ev.M[i][j]), ev)

\* S-matrices side by side: |S| on and below the diagonal, the phase above it
Fs(ev, k) == IF ev.fm = "one" THEN ev.fs[1] ELSE ev.fs[k]
Names4(ev) == IF ev.lbls # <<>> THEN ev.lbls ELSE [k \in 1..ev.ns |-> ToString(k)]
PanelOK(ax, ev, r, c, phase, last) ==
  /\ Len(ax.lines) = ev.ns /\ ax.legend = Names4(ev)
  /\ ax.title = (IF phase THEN "phase( S$_{" \o ToString(r) \o ToString(c) \o "}$ ) [rad]" ELSE "| S$_{" \o ToString(r) \o ToString(c) \o "}$ |")
  /\ (last => ax.xlabel = "frequency [MHz]")
  /\ \A k \in 1..ev.ns :
       LET l == ax.lines[k] F == Fs(ev, k) IN
       /\ l.label = Names4(ev)[k] /\ Len(l.xs) = Len(F) /\ Len(l.ys) = Len(F) /\ l.joined
       /\ \A i \in 1..Len(F) : LET z == CPair(ev.S[k][i][r][c]) IN
            CEq(CStr(l.xs[i]), CStr(F[i])) /\ Close(l.ys[i], IF phase THEN CArg(z) ELSE CAbs(z), CStr("1e-10"))
CmpOK(ev) ==
  LET N == ev.N ax(r, c) == ev.res.axes[(r - 1) * (N + 1) + c] IN
  /\ Len(ev.res.axes) = N * (N + 1)
  /\ \A r \in 1..N : \A c \in 1..r : PanelOK(ax(r, c), ev, r, c, FALSE, r = N) /\ PanelOK(ax(c, r + 1), ev, r, c, TRUE, c = N)

\* the largest value: at an end, or at the top of the parabola through the three samples around a local maximum
Top3(x, y, i) ==     \* vertex of the parabola through samples i, i+1, i+2, by divided differences
  LET d1 == CDiv(CSub(y[i + 1], y[i]), CSub(x[i + 1], x[i]))
      d2 == CDiv(CSub(y[i + 2], y[i + 1]), CSub(x[i + 2], x[i + 1]))
      a == CDiv(CSub(d2, d1), CSub(x[i + 2], x[i]))
      xm == CSub(CHalf(CAdd(x[i], x[i + 1])), CDiv(d1, CMul(C2, a)))
      ym == CAdd(y[i], CAdd(CMul(d1, CSub(xm, x[i])), CMul(a, CMul(CSub(xm, x[i]), CSub(xm, x[i + 1])))))
  IN <<xm, ym>>
Sgn(z) == IF CLt(C0, z) THEN 1 ELSE IF CLt(z, C0) THEN -1 ELSE 0
MaxOK(ev) ==
  LET n == Len(ev.xs)
      x == TLCEval([i \in 1..n |-> CStr(ev.xs[i])]) y == TLCEval([i \in 1..n |-> CStr(ev.ys[i])])
      cand == TLCEval(<<(<<x[1], y[1]>>), (<<x[n], y[n]>>)>> \o
                FoldLeft(LAMBDA acc, i : IF Sgn(CSub(y[i + 2], y[i + 1])) < Sgn(CSub(y[i + 1], y[i])) THEN Append(acc, Top3(x, y, i)) ELSE acc,
                         <<>>, [i \in 1..(IF n > 2 THEN n - 2 ELSE 0) |-> i]))
      tol == CMul(CStr("1e-6"), CAdd(C1, FoldLeft(LAMBDA acc, v : CMax2(acc, CAbs(v)), C0, y)))
      rx == CStr(ev.res.x) ry == CStr(ev.res.y)
  IN /\ \A k \in 1..Len(cand) : CLe(cand[k][2], CAdd(ry, tol))
     /\ \E k \in 1..Len(cand) : CClose(cand[k][2], ry, tol) /\ CClose(cand[k][1], rx, CMul(CStr("1e-4"), CAdd(CStr("0.01"), CSub(x[n], x[1]))))

-----------------------------------------------------------------------------
After(ev) ==
  CASE ev.k = "tree" -> [tree |-> Numbers(ev.snap), notes |-> <<>>]
    [] ev.k = "scale" -> [st EXCEPT !.tree = TimesTree(@, CStr(ev.s))]
    [] ev.k = "hover" /\ ev.out = "ok" -> [st EXCEPT !.notes = Last(ev.res.notes)]
    [] ev.k = "plot" /\ ev.out = "ok" -> [st EXCEPT !.notes = ev.res.notes]
    [] OTHER -> st
Clauses(ev) ==
  (IF ev.k = "plot" /\ ev.id = "both" THEN IF ev.out = "exc" /\ ev.exc = "ValueError" THEN {} ELSE {"plot"}
   ELSE IF ev.k = "cmp" /\ ev.bad # "no" THEN IF ev.out = "exc" /\ ev.exc = "ValueError" THEN {} ELSE {"cmp"}
   ELSE IF ev.out = "exc" THEN {ev.k}
   ELSE IF CASE ev.k = "str" -> StrOK(ev.res, st.tree, ev.ind) /\ ev.res.end
             [] ev.k = "outline" -> OutlineOK(ev.res, st.tree)
             [] ev.k = "plot" -> PlotOK(ev, st.tree)
             [] ev.k = "hover" -> HoverOK(ev, st.tree, st.notes)
             [] ev.k = "mat" -> MatOK(ev)
             [] ev.k = "cmp" -> CmpOK(ev)
             [] ev.k = "max" -> MaxOK(ev)
             [] OTHER -> TRUE THEN {} ELSE {ev.k})
  \cup (IF ev.k = "tree" \/ SameTree(ev.snap, After(ev).tree) THEN {} ELSE {IF ev.k = "scale" THEN "scale" ELSE "changed"})
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut", "snap"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})
Props(cl, variant) ==
  CASE cl = "mut" -> {"C12"} [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] cl = "scale" -> {"C21", "C28"} [] cl = "max" -> {"C21", "C28"}
    [] OTHER -> {"C28"}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = [tree |-> <<>>, notes |-> <<>>]
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == TLCEval(Clauses(ev))
     IN IF cls = {} THEN ei' = ei + 1 /\ ti' = ti /\ st' = TLCEval(After(ev))
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ ti' = ti /\ st' = st
Spec == Init /\ [][Next]_<<ti, ei, st>>
=============================================================================
