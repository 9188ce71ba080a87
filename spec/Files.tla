-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Finding a file by a name or pattern in lists of directories.            *)
(* A path is a sequence of names below the root of the scratch area.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Names == <<"a.txt", "b.txt", "ab.txt", "B.txt", ".a.txt", "c[1].d", "a.d">>
Pats == <<"a.txt", "b.txt", "B.txt", "*.txt", "?.txt", "a*", "c[1].d", "*.d", "nope.txt", ".a*", "*b.t?t">>
\* the characters of the above
Chars(s) ==
  CASE s = "a.txt" -> <<"a", ".", "t", "x", "t">>
    [] s = "b.txt" -> <<"b", ".", "t", "x", "t">>
    [] s = "ab.txt" -> <<"a", "b", ".", "t", "x", "t">>
    [] s = "B.txt" -> <<"B", ".", "t", "x", "t">>
    [] s = ".a.txt" -> <<".", "a", ".", "t", "x", "t">>
    [] s = "c[1].d" -> <<"c", "[", "1", "]", ".", "d">>
    [] s = "a.d" -> <<"a", ".", "d">>
    [] s = "*.txt" -> <<"*", ".", "t", "x", "t">>
    [] s = "?.txt" -> <<"?", ".", "t", "x", "t">>
    [] s = "a*" -> <<"a", "*">>
    [] s = "*.d" -> <<"*", ".", "d">>
    [] s = ".a*" -> <<".", "a", "*">>
    [] s = "*b.t?t" -> <<"*", "b", ".", "t", "?", "t">>
    [] s = "nope.txt" -> <<"n", "o", "p", "e", ".", "t", "x", "t">>
Order == <<".", "1", "B", "[", "]", "a", "b", "c", "d", "e", "n", "o", "p", "t", "x">>
Ord(c) == CHOOSE i \in 1..Len(Order) : Order[i] = c
RECURSIVE Glob(_, _)
Glob(p, n) ==
  IF p = <<>> THEN n = <<>>
  ELSE IF Head(p) = "*" THEN Glob(Tail(p), n) \/ (n # <<>> /\ Glob(p, Tail(n)))
  ELSE n # <<>> /\ (Head(p) = "?" \/ Head(p) = Head(n)) /\ Glob(Tail(p), Tail(n))
\* a name beginning with a dot must be asked for as such
Match(pat, name) == LET p == Chars(pat) n == Chars(name) IN
                    (Head(n) = "." => Head(p) = ".") /\ Glob(p, n)
RECURSIVE LeC(_, _)
LeC(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
             ELSE IF Head(x) = Head(y) THEN LeC(Tail(x), Tail(y)) ELSE Ord(Head(x)) < Ord(Head(y))

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* pat: [dir |-> names that go before it, pat |-> the pattern]
Cands(files, d, pat) == {p \in files : Len(p) > 0 /\ Front(p) = d \o pat.dir /\ Match(pat.pat, Last(p))}
LastOf(C) == CHOOSE p \in C : \A q \in C : LeC(Chars(Last(q)), Chars(Last(p)))
\* what may be found below d: the directory itself comes first, then its
\* subdirectories, a directory always before those inside it
Below(dirs, files, d, pat) ==
  LET with == {e \in dirs : Prefix(d, e) /\ Cands(files, e, pat) # {}}
  IN {LastOf(Cands(files, e, pat)) : e \in {e \in with : \A x \in with : x = e \/ ~Prefix(x, e)}}
\* the allowed outcomes of a search: a set of paths, or {"missing"} / {"none"}
RECURSIVE Search(_, _, _, _, _)
Search(dirs, files, ds, pat, missingOK) ==
  IF ds = <<>> THEN [st |-> "none", ps |-> {}]
  ELSE IF Head(ds) \notin dirs
       THEN IF missingOK THEN Search(dirs, files, Tail(ds), pat, missingOK) ELSE [st |-> "missing", ps |-> {}]
  ELSE LET b == Below(dirs, files, Head(ds), pat)
       IN IF b # {} THEN [st |-> "found", ps |-> b] ELSE Search(dirs, files, Tail(ds), pat, missingOK)
=============================================================================
