------------------------------- MODULE TsfGen -------------------------------
(***************************************************************************)
(* Touchstone texts written by hand in every equivalent way, and by every  *)
(* writer of the library from every kind of object; read back from every   *)
(* kind of source.  Values are drawn by the driver from r.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, SequencesExt

CONSTANTS Profile, MaxOps
\* objs: what can be written; texts: number of texts at hand
VARIABLES objs, texts, hist
vars == <<objs, texts, hist>>
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}
OneOf(s) == {s[R(Len(s))]}
Add(op) == hist' = Append(hist, op)
Unit == {"HZ", "KHZ", "MHZ", "GHZ"}
Fmt == {"RI", "MA", "DB"}

\* a text by hand: what is in it and how it is written
Hand == \E n \in OneOf(<<1, 2, 2, 3, 4, 5, 6>>), m \in One(1..4), unit \in One(Unit), fmt \in One(Fmt), typ \in OneOf(<<"S", "S", "S", "S", "Z", "Y">>),
           ref \in OneOf(<<"one", "one", "one", "none", "many">>), zc \in OneOf(<<"no", "no", "no", "real", "complex", "full">>),
           wrap \in One({"std", "std4", "one", "ragged", "pairs"}), order \in One(1..6), case \in One({"upper", "lower", "mixed"}),
           omit \in One(1..4), cm \in One({"none", "head", "head", "all", "inline"}), sp \in One({"plain", "wide", "tabs", "crlf", "tight"}),
           special \in One(SUBSET {"ports", "markers", "shape", "shape1", "part", "part2", "numbering", "numbering2", "rem"}), num \in One({"repr", "exp", "int"}) :
   /\ texts' = texts + 1 /\ objs' = objs
   /\ Add([k |-> "hand", n |-> n, m |-> m, unit |-> unit, fmt |-> fmt, typ |-> typ, ref |-> ref, zc |-> IF typ = "S" THEN zc ELSE "no",
           wrap |-> wrap, order |-> order, case |-> case, omit |-> omit = 1, cm |-> cm, sp |-> sp, special |-> special, num |-> num, r |-> R(99999)])
Make == \E kind \in OneOf(<<"rfObject", "rfObject", "rfBase", "rfBase", "rfTRL", "rfRLC", "rfCircuit", "rfCircuit", "rfCoupler", "rfArcObj">>),
           n \in OneOf(<<1, 2, 2, 3, 4, 5, 6, 9>>), m \in One(1..5), unit \in OneOf(<<"HZ", "HZ", "KHZ", "MHZ", "GHZ">>), grid \in One({"even", "odd", "fine", "wild"}), zb \in One(BOOLEAN) :
   /\ objs' = Append(objs, [kind |-> kind]) /\ texts' = texts
   /\ Add([k |-> "make", kind |-> kind, n |-> n, m |-> m, unit |-> IF kind = "rfObject" THEN unit ELSE "HZ", grid |-> grid, zb |-> zb, r |-> R(99999)])
CanStr(o) == objs[o].kind \notin {"rfObject", "rfTRL", "rfRLC"}
HasFs(o) == objs[o].kind \in {"rfObject", "rfBase"}
Write == \E o \in One(1..Len(objs)), via \in One({"str", "file"}), wt \in One(BOOLEAN), unit \in OneOf(<<"HZ", "KHZ", "MHZ", "GHZ", "none">>),
            fmt \in OneOf(<<"RI", "MA", "DB", "none">>), typ \in OneOf(<<"S", "S", "S", "none", "Z", "Y">>), ref \in OneOf(<<"R", "R", "R", "none">>),
            zb \in One(1..3), hash \in One({"#", "# ", ""}), fs \in One({"own", "given", "some"}), case \in One({"upper", "lower"}), order \in One(1..6),
            tf \in OneOf(<<"given", "given", "given", "default">>), cm \in One({"none", "one", "two"}), nf \in One({"default", "fine"}) :
   /\ texts' = texts + 1 /\ objs' = objs
   /\ Add([k |-> "write", o |-> o, wtsf |-> wt \/ ~CanStr(o), via |-> via, unit |-> unit, fmt |-> fmt, typ |-> typ, ref |-> ref, zb |-> zb = 1, hash |-> hash,
           fs |-> IF HasFs(o) THEN fs ELSE "given", case |-> case, order |-> order, tf |-> tf, cm |-> cm, nf |-> nf, r |-> R(99999)])
Read == \E t \in One(1..texts), src \in One({"str", "path", "file", "sio"}), by \in OneOf(<<"ReadTSF", "ReadTSF", "rfObject", "rfObject", "rfTRL">>), zb \in OneOf(<<"none", "own", "int", "other", "other">>),
           unit \in OneOf(<<"HZ", "MHZ", "GHZ", "none">>), ports \in OneOf(<<"none", "none", "list", "format">>), xp \in One(1..3), case \in One({"upper", "lower"}) :
   /\ texts' = texts /\ objs' = objs
   /\ Add([k |-> "read", t |-> t, src |-> src, by |-> by, zb |-> zb, unit |-> unit, ports |-> ports, xp |-> xp = 1, case |-> case, r |-> R(99999)])
Bad == \E w \in One({"short", "ragged", "word", "unknown"}), by \in One({"ReadTSF", "rfObject"}), n \in One(1..4), m \in One(2..3) :
   /\ texts' = texts /\ objs' = objs /\ Add([k |-> "bad", what |-> w, by |-> by, n |-> n, m |-> m, r |-> R(99999)])

Step == \E w \in One(1..(40 + 0 * Len(hist))) :
   IF Profile = "write" THEN
        IF objs = <<>> \/ (w <= 6 /\ Len(objs) < 5) THEN Make ELSE IF w <= 24 \/ texts = 0 THEN Write ELSE Read
   ELSE IF texts = 0 \/ w <= 14 THEN Hand ELSE IF w <= 38 THEN Read ELSE Bad

Init == objs = <<>> /\ texts = 0 /\ hist = <<>>
Next == IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
Counted == texts = Cardinality({i \in 1..Len(hist) : hist[i].k \in {"hand", "write"}})
=============================================================================
