----------------------------- MODULE Touchstone -----------------------------
(***************************************************************************)
(* What a touchstone (version 1) text means.                               *)
(*   opts : the items of the option line after '#', upper case, as text    *)
(*   rows : per frequency the numbers after it, in pairs, as text          *)
(* Defaults: GHZ S MA R 50.  A 2-port lists S11 S21 S12 S22, every other   *)
(* n-port row by row.  Z and Y data are in Ohm and Siemens (as everywhere  *)
(* in this library).  Impedances of the ports given per frequency take     *)
(* precedence over R; waves in a file are power waves.                     *)
(***************************************************************************)
EXTENDS Waves

Units == {"HZ", "KHZ", "MHZ", "GHZ"}
Keys == Units \cup {"S", "Y", "Z", "RI", "MA", "DB", "R"}
UnitF(u) == CASE u = "HZ" -> CInt(1) [] u = "KHZ" -> CInt(1000) [] u = "MHZ" -> CInt(1000000) [] u = "GHZ" -> CInt(1000000000)
DefOpts == [unit |-> "GHZ", typ |-> "S", fmt |-> "MA", r |-> <<>>]
RECURSIVE OptsFrom(_, _, _)
OptsFrom(o, ts, inR) ==
  IF ts = <<>> THEN o
  ELSE LET t == Head(ts) IN
       IF t \in Units THEN OptsFrom([o EXCEPT !.unit = t], Tail(ts), FALSE)
       ELSE IF t \in {"S", "Y", "Z"} THEN OptsFrom([o EXCEPT !.typ = t], Tail(ts), FALSE)
       ELSE IF t \in {"RI", "MA", "DB"} THEN OptsFrom([o EXCEPT !.fmt = t], Tail(ts), FALSE)
       ELSE IF t = "R" THEN OptsFrom([o EXCEPT !.r = <<>>], Tail(ts), TRUE)
       ELSE OptsFrom([o EXCEPT !.r = Append(@, CStr(t))], Tail(ts), inR)
Opts(ts) == OptsFrom(DefOpts, ts, FALSE)

Deg(x) == CDiv(CMul(CStr(x), CPi), CInt(180))
Polar(m, a) == CMul(m, CExp(CMul(CJ, Deg(a))))
Value(fmt, a, b) ==
  CASE fmt = "RI" -> CPair(<<a, b>>)
    [] fmt = "MA" -> Polar(CStr(a), b)
    [] fmt = "DB" -> IF a = "-inf" THEN C0
                     ELSE Polar(CExp(CMul(CDiv(CStr(a), CInt(20)), CLog(CInt(10)))), b)
\* the matrix of a row of 2 n^2 numbers
Matrix(fmt, n, w) ==
  LET M == [r \in 1..n |-> [c \in 1..n |-> LET k == 2 * ((r - 1) * n + c) IN Value(fmt, w[k - 1], w[k])]]
  IN IF n = 2 THEN CMTrans(M) ELSE M
PortsOf(w) == CHOOSE n \in 1..12 : 2 * n * n = Len(w)
WellFormed(rows) == rows # <<>> /\ \A i \in 1..Len(rows) : Len(rows[i].w) = Len(rows[1].w) /\ \E n \in 1..12 : 2 * n * n = Len(rows[i].w)

All(n, z) == [k \in 1..n |-> z]
\* the impedances of the ports for the waves of row i; zc as in the file, <<>> if none
Ref(o, n, zc) == IF zc # <<>> THEN [k \in 1..n |-> CPair(zc[k])]
                 ELSE IF o.r = <<>> THEN All(n, CInt(50))
                 ELSE IF Len(o.r) = 1 THEN All(n, o.r[1]) ELSE o.r
RefOK(o, n, zc) == zc # <<>> \/ Len(o.r) \in {0, 1, n}
\* S of a row at the reference impedance z
SAt(o, row, z) ==
  LET n == PortsOf(row.w)
      M == TLCEval(Matrix(o.fmt, n, row.w))
      zs == Ref(o, n, row.zc)
  IN CASE o.typ = "Z" -> SWOfRel(RelOfZ(M), "V", All(n, z))
       [] o.typ = "Y" -> SWOfRel(RelOfY(M), "V", All(n, z))
       [] OTHER -> IF \A k \in 1..n : CEq(zs[k], z) THEN M ELSE SWOfRel(RelOfSW(M, "P", zs), "V", All(n, z))
FAt(o, row) == CMul(CStr(row.f), UnitF(o.unit))
=============================================================================
