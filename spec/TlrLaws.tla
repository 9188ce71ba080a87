------------------------------ MODULE TlrLaws -------------------------------
(***************************************************************************)
(* What the parameters of a coaxial line have to do with one another, and  *)
(* which sets of them determine a line.                                    *)
(*                                                                         *)
(* Deriv: <<what, from>> - `what' follows from `from'.                     *)
(* Assumptions are made for what is not given, in this order:              *)
(*   1 no attenuation given: without any conductor loss parameter rTL = 0, *)
(*     without any medium loss parameter gTL = 0; attenuation given and    *)
(*     nothing else: gTL = 0; rho stands for rhoI and rhoO unless one of   *)
(*     them is given; murI = murO = 1                                      *)
(*   2 while nothing more follows: mur = 1, then epsr = 1, then            *)
(*     Z0TL = the reference impedance                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Names == {"OD", "ID", "rho", "rhoI", "rhoO", "RsI", "RsO", "rTL", "rTLO", "rTLI", "qTLI", "qTLO", "murI", "murO",
          "A", "AdB", "gTL", "sigma", "tand", "LTL", "CTL", "Z0TL", "epsr", "mur", "vr", "etar"}
CondLoss == {"rTL", "rTLO", "rTLI", "rho", "rhoO", "rhoI", "RsI", "RsO"}
MedLoss == {"gTL", "sigma", "tand"}
Deriv == {
  <<"LTL", {"Z0TL", "vr"}>>, <<"CTL", {"Z0TL", "vr"}>>, <<"LTL", {"Z0TL", "CTL"}>>, <<"CTL", {"Z0TL", "LTL"}>>,
  <<"Z0TL", {"LTL", "CTL"}>>, <<"vr", {"LTL", "CTL"}>>, <<"LTL", {"CTL", "vr"}>>, <<"CTL", {"LTL", "vr"}>>,
  <<"Z0TL", {"etar", "ID", "OD"}>>, <<"ID", {"etar", "OD", "Z0TL"}>>, <<"OD", {"etar", "ID", "Z0TL"}>>,
  <<"etar", {"Z0TL", "ID", "OD"}>>,
  <<"gTL", {"ID", "OD", "sigma"}>>, <<"gTL", {"sigma", "Z0TL", "etar"}>>, <<"sigma", {"gTL", "ID", "OD"}>>,
  <<"rTL", {"rTLI", "rTLO"}>>, <<"rTLI", {"rTL", "rTLO"}>>, <<"rTLO", {"rTL", "rTLI"}>>,
  <<"rTLI", {"RsI", "qTLI"}>>, <<"rTLO", {"RsO", "qTLO"}>>, <<"qTLI", {"ID"}>>, <<"qTLO", {"OD"}>>,
  <<"RsI", {"rhoI", "murI"}>>, <<"RsO", {"rhoO", "murO"}>>,
  <<"etar", {"mur", "epsr"}>>, <<"mur", {"etar", "epsr"}>>, <<"epsr", {"etar", "mur"}>>,
  <<"vr", {"mur", "epsr"}>>, <<"mur", {"vr", "epsr"}>>, <<"epsr", {"vr", "mur"}>>,
  <<"mur", {"etar", "vr"}>>, <<"vr", {"etar", "mur"}>>, <<"etar", {"mur", "vr"}>>,
  <<"A", {"AdB"}>>, <<"rTL", {"gTL", "LTL", "CTL", "A"}>>, <<"gTL", {"rTL", "LTL", "CTL", "A"}>>,
  <<"A", {"rTL", "gTL", "LTL", "CTL"}>>, <<"sigma", {"tand", "epsr"}>>, <<"tand", {"sigma", "epsr"}>> }

RECURSIVE Closure(_)
Closure(K) == LET N == K \cup {d[1] : d \in {e \in Deriv : e[2] \subseteq K}}
              IN IF N = K THEN K ELSE Closure(N)
Done(K) == {"LTL", "CTL", "rTL", "gTL"} \subseteq K

\* assumptions: <<set of names assumed, closure reached>>
First(K) ==
  (IF K \cap {"A", "AdB"} = {}
   THEN (IF K \cap CondLoss = {} THEN {"rTL"} ELSE {}) \cup (IF K \cap MedLoss = {} THEN {"gTL"} ELSE {})
   ELSE IF K \cap (CondLoss \cup MedLoss) = {} THEN {"gTL"} ELSE {})
  \cup (IF "rho" \in K /\ K \cap {"rhoI", "rhoO"} = {} THEN {"rhoI", "rhoO"} ELSE {})
  \cup ({"murI", "murO"} \ K)
Resolve(K) ==
  LET a0 == First(K)
      c0 == Closure(K \cup a0)
      a1 == IF Done(c0) THEN a0 ELSE a0 \cup ({"mur"} \ c0)
      c1 == Closure(c0 \cup a1)
      a2 == IF Done(c1) THEN a1 ELSE a1 \cup ({"epsr"} \ c1)
      c2 == Closure(c1 \cup a2)
      a3 == IF Done(c2) THEN a2 ELSE a2 \cup ({"Z0TL"} \ c2)
      c3 == Closure(c2 \cup a3)
  IN <<a3, c3>>
\* t: what is true of the line: the assumptions that hold for it
Sufficient(K, t) == LET r == Resolve(K) IN Done(r[2]) /\ r[1] \subseteq t

\* everything that is ever assumed before the list of names is exhausted: a quantity the line does not
\* depend on any more is assumed as well
AllAssumed(K) ==
  LET a0 == First(K)
      c0 == Closure(K \cup a0)
      a1 == a0 \cup ({"mur"} \ c0)
      c1 == Closure(c0 \cup a1)
      a2 == a1 \cup ({"epsr"} \ c1)
      c2 == Closure(c1 \cup a2)
  IN a2 \cup ({"Z0TL"} \ c2)

\* the closure is a closure, and assuming never loses anything
ClosureOK(K) == LET c == Closure(K) IN K \subseteq c /\ Closure(c) = c
                /\ \A d \in Deriv : d[2] \subseteq c => d[1] \in c
=============================================================================
