------------------------------- MODULE ShowGen -------------------------------
(***************************************************************************)
(* Results are shown: voltage trees are scaled, printed, outlined, plotted *)
(* and pointed at; matrices are printed; S-matrices are compared in a      *)
(* figure; the maximum of a sampled curve is located.                      *)
(* A tree is a sequence of entries [key, kind, ...]; kinds: sub (a tree),  *)
(* line (n samples), node (a position and a voltage), free (a voltage      *)
(* without a position), port (a plain voltage).  Numbers are drawn by the  *)
(* driver and recorded.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Randomization, Json, TLC

CONSTANTS MaxOps
VARIABLES tree, figs, hist
vars == <<tree, figs, hist>>
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}
OneOf(s) == {s[R(Len(s))]}
Keys == {"a", "b", "TL1", "VTL_1", "_hid", "x.y", "port 1", "_", "node", "T", "a1"}
Kinds == <<"line", "line", "line", "node", "node", "free", "port">>

RECURSIVE Level(_, _)
Level(ks, d) == IF ks = <<>> THEN <<>>
   ELSE <<[key |-> Head(ks), kind |-> IF d < 3 /\ R(5) = 1 THEN "sub" ELSE Kinds[R(Len(Kinds))], n |-> 1 + R(4),
           xk |-> <<"asc", "asc", "desc", "same", "neg">>[R(5)], vk |-> <<"var", "var", "cplx", "same", "zero">>[R(5)],
           ck |-> <<"list", "array">>[R(2)], int |-> R(4) = 1,
           sub |-> <<>>]>> \o Level(Tail(ks), d)
\* sub-trees are filled in afterwards, because entries are drawn one by one
RECURSIVE Fill(_, _)
Draw(d) == Level(SetToSeq(RandomSubset(R(4), Keys)), d)
Fill(t, d) == [i \in 1..Len(t) |-> IF t[i].kind = "sub" THEN [t[i] EXCEPT !.sub = TLCEval(Fill(TLCEval(Draw(d + 1)), d + 1))] ELSE t[i]]
Top == <<[key |-> "<top>", kind |-> "sub", n |-> 1, xk |-> "asc", vk |-> "var", ck |-> "list", int |-> FALSE, sub |-> TLCEval(Fill(TLCEval(Draw(1)), 1))]>>
RECURSIVE Depth(_), Count(_)
Depth(t) == IF t = <<>> THEN 0 ELSE LET ds == {IF t[i].kind = "sub" THEN 1 + Depth(t[i].sub) ELSE 1 : i \in 1..Len(t)} IN CHOOSE m \in ds : \A x \in ds : x <= m
Count(t) == IF t = <<>> THEN 0 ELSE (IF t[1].kind = "sub" THEN Count(t[1].sub) ELSE 1) + Count(Tail(t))

Add(op) == hist' = Append(hist, op)
Keep == tree' = tree /\ figs' = figs

NewTree == \E top \in One(1..3) : \E t \in One({IF top = 1 THEN TLCEval(Fill(TLCEval(Draw(1)), 1)) ELSE Top}) :
   /\ t # <<>> /\ tree' = t /\ figs' = 0 /\ Add([k |-> "tree", t |-> t, r |-> R(99999)])
Scale == tree' = tree /\ figs' = 0 /\ Add([k |-> "scale", r |-> R(99999)])
Str == \E ind \in One(0..3), dflt \in One(BOOLEAN) : Keep /\ Add([k |-> "str", ind |-> IF dflt THEN 0 ELSE ind, dflt |-> dflt])
Outline == Keep /\ Add([k |-> "outline"])
Plot == \E fresh \in One(1..3), id \in OneOf(<<"none", "none", "id", "num", "both">>), ml \in OneOf(<<-1, -1, 0, 1, 2, 3>>),
           pn \in One(BOOLEAN), pp \in One(BOOLEAN) :
   LET f == fresh = 1 \/ figs = 0 IN
   /\ tree' = tree /\ figs' = IF id = "both" THEN figs ELSE 1
   /\ Add([k |-> "plot", fresh |-> f, id |-> id, ml |-> ml, pn |-> pn, pp |-> pp])
Hover == /\ figs > 0 /\ Keep
         /\ Add([k |-> "hover", where |-> [i \in 1..6 |-> <<"in", "in", "in", "near", "near", "out">>[R(6)]], r |-> R(99999)])
Mat == \E f \in OneOf(<<"strM", "printM", "printRI", "printMA", "printDB", "printR">>), n \in One(1..4), m \in One(1..4),
          z \in OneOf(<<"default", "default", "none", "dot">>), src \in OneOf(<<"array", "list", "real">>) :
   Keep /\ Add([k |-> "mat", f |-> f, n |-> n, m |-> m, z |-> z, src |-> src, r |-> R(99999)])
Cmp == \E N \in One(1..3), ns \in One(1..4), nf \in One(2..5), fm \in OneOf(<<"one", "one", "many">>), lm \in One(BOOLEAN), cm \in One(BOOLEAN),
          sm \in One(BOOLEAN), bad \in OneOf(<<"no", "no", "no", "no", "shape", "nfs", "len">>) :
   tree' = tree /\ figs' = 0 /\ Add([k |-> "cmp", N |-> N, ns |-> ns, nf |-> nf, fm |-> fm, lm |-> lm, cm |-> cm, sm |-> sm,
                bad |-> IF ns = 1 /\ bad = "shape" THEN "len" ELSE IF fm = "one" /\ bad = "nfs" THEN "len" ELSE bad, r |-> R(99999)])
MaxFun == \E n \in OneOf(<<1, 2, 3, 4, 5, 8, 13, 30>>), y \in OneOf(<<"smooth", "rough", "steps", "up", "down">>) :
   Keep /\ Add([k |-> "max", n |-> n, y |-> y, r |-> R(99999)])

Step == \E w \in One(1..(60 + 0 * Len(hist))) :
   IF tree = <<>> \/ w <= 4 THEN NewTree
   ELSE IF w <= 9 THEN Scale
   ELSE IF w <= 16 THEN Str
   ELSE IF w <= 20 THEN Outline
   ELSE IF w <= 28 THEN Plot
   ELSE IF w <= 38 /\ figs > 0 THEN Hover
   ELSE IF w <= 48 THEN Mat
   ELSE IF w <= 51 THEN Cmp
   ELSE MaxFun
Init == tree = <<>> /\ figs = 0 /\ hist = <<>>
Next == IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
\* depth is bounded; keys of one level are distinct
RECURSIVE Distinct(_)
Distinct(t) == /\ Cardinality({t[i].key : i \in 1..Len(t)}) = Len(t) /\ \A i \in 1..Len(t) : t[i].kind = "sub" => Distinct(t[i].sub)
Shaped == Depth(tree) <= 5 /\ Distinct(tree)
=============================================================================
