------------------------------- MODULE TabGen -------------------------------
(***************************************************************************)
(* The life of table objects: filled in any order, overwritten, asked at   *)
(* and between their frequencies, reordered, converted, de-embedded,       *)
(* copied, pickled, refused.  Values are drawn by the driver from r.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, SequencesExt

CONSTANTS Profile, MaxOps
\* objs: n ports (0: not known yet), how it was made, filled: has frequencies
VARIABLES objs, hist
vars == <<objs, hist>>
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}
OneOf(s) == {s[R(Len(s))]}
Held == 1..Len(objs)
Idx(P(_)) == {i \in Held : P(objs[i])}

Add(op) == hist' = Append(hist, op)
Same(op) == objs' = objs /\ Add(op)
Upd(o, rec, op) == objs' = [objs EXCEPT ![o] = rec] /\ Add(op)

New == \E n \in OneOf(<<1, 2, 2, 3, 4>>),
          how \in OneOf(IF Profile = "tsf" THEN <<"tsf">>
                        ELSE <<"ports", "ports", "ports", "str", "noports", "noports", "matrix", "tsf">>),
          mode \in OneOf(<<"MA", "RI", "RI", "dB", "default">>), kind \in OneOf(<<"default", "default", "1", "2", "3", "5", "k3only">>),
          unit \in OneOf(<<"default", "Hz", "kHz", "MHZ", "GHz">>), zb \in One(BOOLEAN), xp \in One(BOOLEAN), zc \in One(1..3) :
   /\ objs' = Append(objs, [n |-> IF how = "noports" THEN 0 ELSE n, how |-> how, filled |-> how \in {"matrix", "tsf"}])
   /\ Add([k |-> "new", how |-> how, n |-> n, mode |-> mode, kind |-> kind, unit |-> IF how = "matrix" THEN "default" ELSE unit,
           zb |-> zb, xp |-> xp /\ how # "noports", named |-> R(2) = 1, zc |-> zc = 1,
           nid |-> Len(objs) + 1, r |-> R(99999)])
Free == Idx(LAMBDA x : x.how # "matrix")
Full == Idx(LAMBDA x : x.filled)
Put == \E o \in One(Free), many \in OneOf(<<1, 1, 2, 3, 4>>), form \in One({"arr", "list", "low"}), dup \in One(1..4), names \in One(BOOLEAN) :
   \E n \in One({IF objs[o].n = 0 THEN RandomElement(1..3) ELSE objs[o].n}) :
   Upd(o, [objs[o] EXCEPT !.n = n, !.filled = TRUE],
       [k |-> "put", o |-> o, n |-> n, many |-> many, form |-> form, dup |-> dup = 1, names |-> objs[o].n = 0 /\ names, r |-> R(99999)])
Item == \E o \in One(Full \cap Free), same \in One(BOOLEAN) : Same([k |-> "item", o |-> o, same |-> same, r |-> R(99999)])
Ask == \E o \in One(Full), at \in OneOf(<<"stored", "stored", "between", "between", "between", "outside", "mix">>),
          form \in OneOf(<<"one", "one", "list", "array", "single">>), z \in One(1..3), u \in One(1..4) :
   Same([k |-> "getS", o |-> o, at |-> at, form |-> form, zb |-> IF z = 1 THEN "other" ELSE "own", u |-> u = 1, r |-> R(99999)])
Table == \E o \in One(Held), via \in One({"iter", "item", "attr"}) : Same([k |-> "table", o |-> o, via |-> via])
MaxV == \E o \in One(Full), z \in One({"own", "other"}), at \in One({"stored", "between"}) :
   Same([k |-> "maxV", o |-> o, at |-> at, zb |-> z, r |-> R(99999)])
Equal == \E o \in One(Held), p \in One(Held), what \in One({"", "x", "5"}) : Same([k |-> "eq", o |-> o, p |-> p, what |-> what])
Show == \E o \in One(Held), how \in One({"str", "repr"}) : Same([k |-> "str", o |-> o, how |-> how])
Rep == \E o \in One(Held), rep \in One({"Z", "Y"}), form \in One({"array", "list"}) : Same([k |-> "rep", o |-> o, rep |-> rep, form |-> form, r |-> R(99999)])
\* the defaults of objects made from now on
Defaults == \E mode \in One({"MA", "RI", "dB"}), kind \in One({"1", "2", "3"}) : Same([k |-> "defaults", mode |-> mode, kind |-> kind, r |-> R(99999)])
Sort == \E o \in One(Held), by \in OneOf(<<"default", "list", "list", "part">>) : Same([k |-> "sort", o |-> o, by |-> by, r |-> R(99999)])
Conv == \E o \in One(Full), same \in One(1..5) : Same([k |-> "conv", o |-> o, same |-> same = 1, r |-> R(99999)])
Deemb == \E o \in One(Full \cap Free), m \in One(1..3), back \in One(1..3) :
   Same([k |-> "deembed", o |-> o, m |-> m, back |-> back = 1, r |-> R(99999)])
Copy == \E o \in One(Held), how \in One({"copy", "copycopy", "deepcopy", "pickle"}) :
   /\ objs' = Append(objs, objs[o])
   /\ Add([k |-> "copy", o |-> o, how |-> how, nid |-> Len(objs) + 1])
\* refused: nothing changes
Bad == \E o \in One(Free), w \in OneOf(<<"shape", "square", "count", "renamed", "names", "sortdup", "sortname", "deport", "deval", "deportmix">>) :
   Same([k |-> "bad", o |-> o, n |-> objs[o].n, filled |-> objs[o].filled,
         what |-> IF objs[o].n = 0 THEN (IF w = "count" THEN w ELSE "names")
                  ELSE IF w = "names" THEN "renamed" ELSE w, r |-> R(99999)])
BadNew == \E w \in One({"notsquare", "threed", "portcount", "scalar", "tsfargs"}) : Same([k |-> "badnew", what |-> w, r |-> R(99999)])

W == CASE Profile = "interp" -> <<2, 16, 17, 34, 35, 36, 37, 38, 38, 39, 40, 40>>
       [] Profile = "deembed" -> <<3, 10, 11, 22, 24, 25, 27, 30, 38, 39, 40, 40>>
       [] Profile = "bad" -> <<4, 12, 14, 22, 25, 26, 28, 30, 32, 33, 39, 40>>
       [] OTHER -> <<3, 10, 12, 22, 24, 26, 29, 32, 34, 37, 39, 40>>
Step == \E w \in One(1..(40 + 0 * Len(hist))) :
   IF hist = <<>> /\ w <= 12 THEN Defaults
   ELSE IF objs = <<>> \/ (w <= W[1] /\ Len(objs) < 4) THEN New
   ELSE IF w <= W[2] /\ Free # {} THEN Put
   ELSE IF Full = {} THEN (IF Free # {} THEN Put ELSE New)
   ELSE IF w <= W[3] /\ Full \cap Free # {} THEN Item
   ELSE IF w <= W[4] THEN Ask
   ELSE IF w <= W[5] /\ R(3) = 1 THEN Equal
   ELSE IF (w <= W[5] /\ R(4) = 1) \/ (Profile = "show" /\ R(3) = 1) THEN Show
   ELSE IF w <= W[5] /\ R(6) = 1 THEN Defaults
   ELSE IF w <= W[5] /\ R(3) = 1 THEN Rep
   ELSE IF w <= W[5] THEN Table
   ELSE IF w <= W[6] THEN MaxV
   ELSE IF w <= W[7] THEN Sort
   ELSE IF w <= W[8] THEN Conv
   ELSE IF w <= W[9] /\ Full \cap Free # {} THEN Deemb
   ELSE IF w <= W[10] /\ Len(objs) < 6 THEN Copy
   ELSE IF w <= W[11] /\ Free # {} THEN Bad
   ELSE IF w <= W[12] THEN BadNew ELSE Ask

Init == objs = <<>> /\ hist = <<>>
Next == IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
Typed == \A i \in Held : objs[i].n \in 0..4 /\ (objs[i].filled => objs[i].n > 0)
=============================================================================
