------------------------------- MODULE TlrGen -------------------------------
(***************************************************************************)
(* Descriptions of coaxial lines: what is true of the line, and which of   *)
(* its parameters are given, in which order and form.                      *)
(***************************************************************************)
EXTENDS TlrLaws, Json, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Mode, MaxOps
VARIABLES hist
vars == <<hist>>
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}

\* true of the line: which usual assumptions hold for it
Facts == {"mur", "epsr", "murI", "murO", "rTL", "gTL", "Z0TL"}
\* rho makes sense when both conductors are of the same material
Usable(t) == (IF "rhoEq" \in t THEN Names ELSE Names \ {"rho"})
\* (no conductor losses: a perfect conductor)
TrueOf(t) == t \cup (IF "rhoEq" \in t THEN {"rhoI", "rhoO"} ELSE {})

RECURSIVE Grow(_, _, _)
Grow(K, t, n) == IF n = 0 \/ Sufficient(K, TrueOf(t)) THEN K
                 ELSE LET x == CHOOSE y \in One(Usable(t) \ K) : TRUE IN Grow(K \cup {x}, t, n - 1)
\* some chosen cores make dense mixtures likelier
Cores == { {}, {"Z0TL"}, {"Z0TL", "vr"}, {"LTL", "CTL"}, {"OD", "ID"}, {"OD", "ID", "epsr"}, {"OD", "Z0TL", "etar"},
           {"Z0TL", "A"}, {"LTL", "CTL", "A"}, {"Z0TL", "vr", "mur"}, {"vr", "epsr", "Z0TL"}, {"OD", "ID", "rho"},
           {"OD", "ID", "tand"}, {"AdB", "LTL", "vr"}, {"CTL", "vr", "rTLI"}, {"rTL", "rTLO", "OD"}, {"sigma", "Z0TL"} }
Line == \E t0 \in One(SUBSET (Facts \cup {"rhoEq"})), core \in One(Cores), m \in One(1..6), form \in One({"c", "c", "w", "x"}),
           very \in One(1..6) :
          \E t \in One({IF R(3) = 1 THEN t0 ELSE t0 \cup {"murI", "murO"}}) :
          \* the impedance of a line that varies is not one number
          \E tt \in One({TrueOf(t) \ (IF form = "x" THEN {"Z0TL"} ELSE {})}) :
          \E K1 \in One({Grow(core \cap Usable(t), t, 9)}) :
          \E K \in One({K1 \cup (IF m > 3 THEN One(Usable(t)) ELSE {})}) :
             hist' = Append(hist, [k |-> "line", given |-> SetToSeq(K), facts |-> SetToSeq(t),
                       suff |-> Sufficient(K, tt), all |-> AllAssumed(K) \subseteq tt, known |-> SetToSeq(Resolve(K)[2]),
                       form |-> form, very |-> very = 1, nid |-> Len(hist) + 1, r |-> R(99999)])

\* every small sufficient description of a line for which all assumptions hold
AllTrue == Facts \cup {"rhoI", "rhoO"}
Small == {K \in UNION {kSubset(i, Names) : i \in 1..4} : Sufficient(K, AllTrue)}
Init == hist = <<>>
Grid == IF hist = <<>> THEN \E K \in Small : \E lossy \in SUBSET {"rTL", "gTL"} :
             LET t == (Facts \ lossy) \cup {"rhoEq"} IN
             /\ Sufficient(K, TrueOf(t))
             /\ hist' = <<[k |-> "line", given |-> SetToSeq(K), facts |-> SetToSeq(t), suff |-> TRUE, all |-> AllAssumed(K) \subseteq TrueOf(t),
                           known |-> SetToSeq(Resolve(K)[2]), form |-> "c", very |-> FALSE, nid |-> 1, r |-> 7]>>
        ELSE PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars
Next == IF Mode = "grid" THEN Grid
        ELSE IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars ELSE Line
Spec == Init /\ [][Next]_vars
GivenIsKnown == \A k \in 1..Len(hist) : Range(hist[k].given) \subseteq Range(hist[k].known)
                                        /\ ClosureOK(Range(hist[k].given))
=============================================================================
