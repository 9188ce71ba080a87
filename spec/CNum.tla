-------------------------------- MODULE CNum --------------------------------
(***************************************************************************)
(* Complex numbers with 44 significant decimal digits, and linear algebra  *)
(* over them.  TLC's integers are 32 bit, so the operators of this module  *)
(* are evaluated by java/CNum.java (a TLC module override); what they mean *)
(* is given here.  A number is an opaque value.  NaN (unparsable text,     *)
(* division by zero, exp overflow) is absorbing for arithmetic and makes   *)
(* every comparison FALSE, so that no verdict is ever passed on garbage.   *)
(*                                                                         *)
(* Matrices are sequences of rows.  JSON carries a real number as decimal  *)
(* text ("0.25", "-1e-09", "nan") and a complex one as a pair of those.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CStr(s) == CHOOSE x : x = s            \* the real number written in the text s
CPair(p) == CHOOSE x : x = p           \* CStr(p[1]) + i CStr(p[2])
CInt(k) == CHOOSE x : x = k            \* the integer k
CPi == CHOOSE x : TRUE                 \* pi
CJ == CHOOSE x : TRUE                  \* the imaginary unit
CNaN == CHOOSE x : TRUE
CAdd(a, b) == CHOOSE x : x = <<"+", a, b>>
CSub(a, b) == CHOOSE x : x = <<"-", a, b>>
CMul(a, b) == CHOOSE x : x = <<"*", a, b>>
CDiv(a, b) == CHOOSE x : x = <<"/", a, b>>
CNeg(a) == CHOOSE x : x = <<"neg", a>>
CConj(a) == CHOOSE x : x = <<"conj", a>>
CRe(a) == CHOOSE x : x = <<"re", a>>
CIm(a) == CHOOSE x : x = <<"im", a>>
CAbs(a) == CHOOSE x : x = <<"abs", a>>
CArg(a) == CHOOSE x : x = <<"arg", a>>    \* in (-pi, pi]
CSqrt(a) == CHOOSE x : x = <<"sqrt", a>>  \* principal branch
CExp(a) == CHOOSE x : x = <<"exp", a>>
CLog(a) == CHOOSE x : x = <<"log", a>>    \* principal branch
CFloor(a) == CHOOSE x : x = <<"floor", a>>   \* integer
CIsNaN(a) == a = CNaN
CEq(a, b) == a = b
CLe(a, b) == CHOOSE x \in BOOLEAN : TRUE  \* Re a <= Re b, neither NaN
CLt(a, b) == CHOOSE x \in BOOLEAN : TRUE  \* Re a < Re b, neither NaN
CClose(a, b, tol) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= tol, none NaN
CText(a) == CHOOSE x \in STRING : TRUE    \* decimal text of the real part, all digits
CShow(a) == CHOOSE x \in STRING : TRUE    \* decimal text, 12 digits

CMat(m) == CHOOSE x : x = m            \* JSON matrix of pairs -> matrix
CMMul(A, B) == CHOOSE x : x = <<A, B>> \* matrix product
\* the X with A X = B, or <<>> when A is singular (pivot below 1e-28 after row
\* equilibration)
CMSolve(A, B) == CHOOSE X : CMMul(A, X) = B
CMDist(A, B) == CHOOSE x : TRUE        \* max |A_ij - B_ij|, NaN if shapes differ
CMMax(A) == CHOOSE x : TRUE            \* max |A_ij|

-----------------------------------------------------------------------------
\* derived
C0 == CInt(0)
C1 == CInt(1)
C2 == CInt(2)
CRat(a, b) == CDiv(CInt(a), CInt(b))
CInv(a) == CDiv(C1, a)
CSq(a) == CMul(a, a)
CHalf(a) == CDiv(a, C2)
RECURSIVE CSumSeq(_)
CSumSeq(s) == IF s = <<>> THEN C0 ELSE CAdd(Head(s), CSumSeq(Tail(s)))
CCosh(a) == CHalf(CAdd(CExp(a), CExp(CNeg(a))))
CSinh(a) == CHalf(CSub(CExp(a), CExp(CNeg(a))))
CTwoPi == CMul(C2, CPi)
COmega(f) == CMul(CTwoPi, f)               \* angular frequency
CJW(f) == CMul(CJ, COmega(f))
CMax2(a, b) == IF CLe(a, b) THEN b ELSE a
CMin2(a, b) == IF CLe(a, b) THEN a ELSE b
CIdent(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN C1 ELSE C0]]
CMAdd(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> CAdd(A[r][c], B[r][c])]]
CMSub(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> CSub(A[r][c], B[r][c])]]
CMScale(k, A) == [r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> CMul(k, A[r][c])]]
CMDiag(v) == [r \in 1..Len(v) |-> [c \in 1..Len(v) |-> IF r = c THEN v[r] ELSE C0]]
CMTrans(A) == IF A = <<>> THEN <<>> ELSE [c \in 1..Len(A[1]) |-> [r \in 1..Len(A) |-> A[r][c]]]
CMConjT(A) == IF A = <<>> THEN <<>> ELSE [c \in 1..Len(A[1]) |-> [r \in 1..Len(A) |-> CConj(A[r][c])]]
CMInv(A) == CMSolve(A, CIdent(Len(A)))
CCol(v) == [r \in 1..Len(v) |-> <<v[r]>>]  \* vector -> column matrix
CUncol(A) == [r \in 1..Len(A) |-> A[r][1]]
CMVec(A, v) == CUncol(CMMul(A, CCol(v)))
\* the row of n numbers that is the sum of the given <<index, value>> entries
CRow(n, es) == [x \in 1..n |-> CSumSeq([i \in 1..Len(es) |-> IF es[i][1] = x THEN es[i][2] ELSE C0])]
CMIsNull(A) == A = <<>>
CMClose(A, B, tol) == CLe(CMDist(A, B), tol)
=============================================================================
