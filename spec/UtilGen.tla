------------------------------- MODULE UtilGen -------------------------------
(***************************************************************************)
(* Directories and files come and go; files are searched and read by the   *)
(* precedence of environment, user and application directories; texts are  *)
(* delivered line by line from every kind of source.                       *)
(***************************************************************************)
EXTENDS Files, Json, TLC

CONSTANTS MaxOps
VARIABLES dirs, files, env, hist
vars == <<dirs, files, env, hist>>
R(n) == RandomElement(1..(n + 0 * Len(hist)))
One(S) == {RandomElement(S)}
OneOf(s) == {s[R(Len(s))]}
DirU == {<<"d1">>, <<"d1", "s">>, <<"d1", "s", "t">>, <<"d1", "u">>, <<"d2">>, <<"d2", "s">>, <<"home", "h1">>,
         <<"home", "h1", "s">>, <<"cwd", "s">>, <<"x*y">>, <<"xzy">>, <<"q?">>, <<"qq">>, <<"e[1]">>, <<"e1">>, <<"d 3">>, <<"d 3", ".h">>}
Always == {<<"home">>, <<"cwd">>}

Spell(d) == [p |-> d, how |-> RandomElement(IF d[1] = "home" THEN {"abs", "home", "rel"} ELSE {"abs", "rel", "slash"})]
RECURSIVE RList(_)
RList(n) == IF n = 0 THEN <<>> ELSE LET d == RandomElement(IF R(4) = 1 THEN DirU ELSE dirs) IN <<Spell(d)>> \o RList(n - 1)
Add(op) == hist' = Append(hist, op)
Keep == dirs' = dirs /\ files' = files /\ env' = env

Mkdir == \E d \in One(DirU \ dirs) : /\ dirs' = dirs \cup {d} \cup {SubSeq(d, 1, k) : k \in 1..Len(d)} /\ files' = files /\ env' = env
                                     /\ Add([k |-> "mkdir", d |-> d])
Rmdir == \E d \in One(dirs \ Always) : /\ dirs' = {e \in dirs : ~Prefix(d, e)} /\ files' = {f \in files : ~Prefix(d, f)} /\ env' = env
                                       /\ Add([k |-> "rmdir", d |-> d])
Touch == \E d \in One(dirs), i \in One(1..Len(Names)), bad \in One(1..8) :
   /\ files' = files \cup {d \o <<Names[i]>>} /\ dirs' = dirs /\ env' = env
   /\ Add([k |-> "touch", p |-> d \o <<Names[i]>>, bad |-> bad = 1, r |-> R(99999)])
Rm == \E p \in One(files) : /\ files' = files \ {p} /\ dirs' = dirs /\ env' = env /\ Add([k |-> "rm", p |-> p])
Env == \E m \in OneOf(<<"unset", "empty", "set", "set", "set">>), n \in One(1..3) : \E l \in One({RList(n)}) :
   /\ env' = m /\ dirs' = dirs /\ files' = files /\ Add([k |-> "env", m |-> m, l |-> IF m = "set" THEN l ELSE <<>>])
Find == \E via \in OneOf(<<"find", "find", "exists", "read">>), pi \in One(1..Len(Pats)), sub \in One(1..6), ue \in OneOf(<<"no", "yes", "yes">>),
           um \in OneOf(<<"list", "list", "list", "one", "default", "empty">>), am \in OneOf(<<"list", "list", "one", "default">>),
           nu \in One(1..3), na \in One(1..2), ok \in OneOf(<<"default", "true", "false">>), vb \in One(1..4), pos \in One(BOOLEAN) :
   \E ul \in One({RList(IF um = "list" THEN nu ELSE IF um = "one" THEN 1 ELSE 0)}), al \in One({RList(IF am = "list" THEN na ELSE IF am = "one" THEN 1 ELSE 0)}) :
   Keep /\ Add([k |-> "search", via |-> via, pat |-> [dir |-> IF sub = 1 THEN <<"s">> ELSE <<>>, pat |-> Pats[pi]], ue |-> ue, um |-> um, am |-> am,
                ul |-> ul, al |-> al, ok |-> ok, vb |-> vb = 1, pos |-> pos])
Lines == \E n \in One(1..8), nl \in OneOf(<<"lf", "lf", "crlf", "cr">>), final \in One(BOOLEAN),
            src \in OneOf(<<"path", "file", "str", "str", "sio">>), skip \in One(0..3) :
   Keep /\ Add([k |-> "lines", n |-> n, nl |-> nl, final |-> final, src |-> src, skip |-> skip, r |-> R(99999)])
Text == \E bad \in One(1..6) : Keep /\ Add([k |-> "dict", bad |-> bad = 1, r |-> R(99999)])

Step == \E w \in One(1..(40 + 0 * Len(hist))) :
   IF w <= 5 /\ DirU \ dirs # {} THEN Mkdir
   ELSE IF w <= 6 /\ dirs \ Always # {} THEN Rmdir
   ELSE IF w <= 14 \/ Len(hist) < 4 THEN Touch
   ELSE IF w <= 15 /\ files # {} THEN Rm
   ELSE IF w <= 19 THEN Env
   ELSE IF w <= 35 THEN Find
   ELSE IF w <= 38 THEN Lines ELSE Text

Init == dirs = Always /\ files = {} /\ env = "unset" /\ hist = <<>>
Next == IF Len(hist) >= MaxOps THEN PrintT("@@" \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
\* every file is in a directory, every directory but the top ones in another
Rooted == /\ \A p \in files : Front(p) \in dirs
          /\ \A d \in dirs : Len(d) > 1 => Front(d) \in dirs
=============================================================================
