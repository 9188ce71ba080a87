------------------------------- MODULE ObjGen -------------------------------
(***************************************************************************)
(* The life of single RF objects: created, asked, changed, copied, refused *)
(* and asked again.  The values are drawn by the driver from r.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Profile, MaxOps
VARIABLES objs, hist
vars == <<objs, hist>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
R(n) == RandomElement(1..(n + 0 * Len(hist)))
Pick(S) == CHOOSE x \in {RandomElement(S)} : TRUE
One(S) == {RandomElement(S)}

Kinds == CASE Profile = "rlc" -> {"rlc"}
           [] Profile = "arccpl" -> {"arc", "cpl"}
           [] Profile = "line" -> {"line"}
           [] Profile = "taper" -> {"taper"}
           [] OTHER -> {"rlc", "arc", "cpl", "line", "taper", "base"}
NPorts(k) == CASE k = "arc" -> 1 [] k = "cpl" -> 4 [] OTHER -> 2
Attrs(k) == CASE k = "rlc" -> {"Rs", "Ls", "Cs", "Rp", "Lp", "Cp"}
              [] k = "arc" -> {"Larc"}
              [] k = "line" -> {"L"}
              [] OTHER -> {}
Forms == {"one", "one", "list", "array", "rev", "rep", "single", "int"}

Idx(P(_)) == {i \in 1..Len(objs) : P(objs[i])}
Held == 1..Len(objs)

Add(op) == hist' = Append(hist, op)
New == \E k \in One(Kinds), cx \in One(BOOLEAN), cp \in One(BOOLEAN) :
         /\ objs' = Append(objs, k)
         /\ Add([k |-> "new", kind |-> k, nid |-> Len(objs) + 1, cx |-> cx, cp |-> cp, r |-> R(99999)])
Same(op) == objs' = objs /\ Add(op)
GetS == \E o \in One(Held), fm \in One(1..8), z \in One(1..3) :
         Same([k |-> "getS", o |-> o, fm |-> <<"one", "one", "list", "array", "rev", "rep", "single", "int">>[fm],
               zb |-> IF z = 1 THEN "own" ELSE "other", r |-> R(99999)])
Get1S == \E o \in One(Idx(LAMBDA k : k \in {"arc", "cpl", "base"})) : Same([k |-> "get1S", o |-> o, r |-> R(99999)])
Set == \E o \in One(Idx(LAMBDA k : Attrs(k) # {})) :
         LET A == Attrs(objs[o])
             S == CHOOSE s \in {RandomElement((SUBSET A) \ {{}})} : TRUE
         IN Same([k |-> "set", o |-> o, as |-> SetSeq(S), same |-> R(5) = 1, via |-> "set", r |-> R(99999)])
ParS == \E o \in One(Idx(LAMBDA k : k \in {"rlc", "line"})) :
         LET A == Attrs(objs[o])
             S == CHOOSE s \in {RandomElement((SUBSET A) \ {{}})} : TRUE
         IN Same([k |-> "set", o |-> o, as |-> SetSeq(S), same |-> FALSE, via |-> "getS", r |-> R(99999)])
BadSet == \E o \in One(Held), w \in One({"nonsense", "rs", "Zc", "withgood"}) :
         Same([k |-> "badset", o |-> o, what |-> w, as |-> SetSeq(Attrs(objs[o])), r |-> R(99999)])
Copy == \E o \in One(Held), h \in One({"copy", "copycopy", "deepcopy"}) :
         /\ objs' = Append(objs, objs[o])
         /\ Add([k |-> "copy", o |-> o, nid |-> Len(objs) + 1, how |-> h, r |-> R(99999)])
MaxV == \E o \in One(Held), z \in One({"own", "other", "default"}) :
         Same([k |-> "maxV", o |-> o, zb |-> z, r |-> R(99999)])
VISW == \E o \in One(Idx(LAMBDA k : k \in {"line", "taper"})), z \in One({"own", "other", "default"}) :
         Same([k |-> "visw", o |-> o, zb |-> z, again |-> R(3) = 1, r |-> R(99999)])
SolveVI == \E o \in One(Idx(LAMBDA k : k \in {"line", "taper"})), w \in One({"both", "V", "I"}) :
         Same([k |-> "solveVI", o |-> o, what |-> w, r |-> R(99999)])
Str == \E o \in One(Held), f \in One(BOOLEAN) : Same([k |-> "str", o |-> o, full |-> f, r |-> R(99999)])
BadNew == \E w \in One({"kc", "Lc", "cplports", "trlxpos", "trlkw", "basefs", "baseports", "basef"}) :
         Same([k |-> "badnew", what |-> w, r |-> R(99999)])

Has(P(_)) == Idx(P) # {}
Settable == Has(LAMBDA k : Attrs(k) # {})
Lines == Has(LAMBDA k : k \in {"line", "taper"})

Step == \E w \in One(1..(40 + 0 * Len(hist))) :
   IF objs = <<>> \/ (w <= 5 /\ Len(objs) < 5) THEN New
   ELSE IF w <= 16 THEN GetS
   ELSE IF w <= 20 /\ Settable THEN Set
   ELSE IF w <= 22 /\ Has(LAMBDA k : k \in {"rlc", "line"}) THEN ParS
   ELSE IF w <= 24 THEN BadSet
   ELSE IF w <= 27 /\ Len(objs) < 8 THEN Copy
   ELSE IF Profile = "show" /\ w > 27 THEN Str
   ELSE IF w <= 30 THEN MaxV
   ELSE IF w <= 34 /\ Lines THEN VISW
   ELSE IF w <= 36 /\ Lines THEN SolveVI
   ELSE IF w = 37 THEN Str
   ELSE IF w = 38 THEN BadNew
   ELSE IF w = 39 /\ Has(LAMBDA k : k \in {"arc", "cpl", "base"}) THEN Get1S
   ELSE GetS
\* the walk ends by asking every object once more
Audit == [i \in 1..Len(objs) |-> [k |-> "getS", o |-> i, fm |-> "one", zb |-> "own", r |-> i]]
Init == objs = <<>> /\ hist = <<>>
Next == IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist \o Audit)) /\ FALSE /\ UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
IdsOK == \A k \in 1..Len(hist) : "o" \in DOMAIN hist[k] => hist[k].o \in 1..Len(objs)
=============================================================================
