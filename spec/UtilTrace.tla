------------------------------ MODULE UtilTrace ------------------------------
(***************************************************************************)
(* Judges what was found, read and delivered.                              *)
(* State: dirs, files (path -> what it contains), env (the directories).   *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
VARIABLES ti, ei, st

Paths(l) == [i \in 1..Len(l) |-> l[i].p]
After(ev) ==
  CASE ev.k = "mkdir" -> [st EXCEPT !.dirs = @ \cup {SubSeq(ev.d, 1, k) : k \in 1..Len(ev.d)}]
    [] ev.k = "rmdir" -> [st EXCEPT !.dirs = {e \in @ : ~Prefix(ev.d, e)}, !.files = {f \in @ : ~Prefix(ev.d, f.p)}]
    [] ev.k = "touch" -> [st EXCEPT !.files = {f \in @ : f.p # ev.p} \cup {[p |-> ev.p, val |-> ev.val]}]
    [] ev.k = "rm" -> [st EXCEPT !.files = {f \in @ : f.p # ev.p}]
    [] ev.k = "env" -> [st EXCEPT !.env = IF ev.m = "set" THEN Paths(ev.l) ELSE <<>>]
    [] OTHER -> st
Want(ev) ==
  LET user == IF ev.um = "default" THEN << <<"cwd">> >> ELSE Paths(ev.ul)
      fs == {f.p : f \in st.files}
  IN Search(st.dirs, fs, (IF ev.ue = "yes" THEN st.env ELSE <<>>) \o user \o Paths(ev.al), ev.pat, ev.ok # "false")
Val(p) == (CHOOSE f \in st.files : f.p = p).val

Clauses(ev) ==
  (CASE ev.k = "search" ->
         LET w == TLCEval(Want(ev)) IN
         IF ev.via = "find" THEN
              IF w.st = "found" THEN IF ev.out = "ok" /\ ev.res.path \in w.ps THEN {} ELSE {"found"}
              ELSE IF ev.out = "exc" /\ ev.oserr THEN {} ELSE {"missing"}
         ELSE IF ev.via = "exists" THEN
              IF ev.out = "exc" THEN {"exc"}
              ELSE IF w.st = "found" THEN IF ev.res.path \in w.ps THEN {} ELSE {"found"}
              ELSE IF ev.res.empty THEN {} ELSE {"missing"}
         ELSE IF w.st # "found" THEN IF ev.out = "exc" /\ ev.oserr THEN {} ELSE {"missing"}
         ELSE IF \E p \in w.ps : IF Val(p) = "bad" THEN ev.out = "exc" ELSE ev.out = "ok" /\ ev.res.val = Val(p) THEN {} ELSE {"read"}
     [] ev.k = "lines" -> IF ev.out = "ok" /\ ev.res.lines = SubSeq(ev.want, ev.off + 1, Len(ev.want)) THEN {} ELSE {"lines"}
     [] ev.k = "dict" -> IF ev.val = "bad" THEN IF ev.out = "exc" THEN {} ELSE {"read"}
                         ELSE IF ev.out = "ok" /\ ev.res.val = ev.val THEN {} ELSE {"read"}
     [] OTHER -> {})
  \cup (IF ev.mut # <<>> THEN {"mut"} ELSE {})
  \cup (IF ev.bal # 0 THEN {"bal"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ \E x \in {"out", "exc", "res", "mut"} : ev.alt[x] # ev[x] THEN {"alt"} ELSE {})
  \cup (IF "alt" \in DOMAIN ev /\ ev.alt["bal"] # 0 THEN {"bal"} ELSE {})
Props(cl, variant) ==
  CASE cl = "mut" -> {"C12"} [] cl = "bal" -> {"C23"}
    [] cl = "alt" -> IF variant = "log" THEN {"C23"} ELSE {"C12"}
    [] OTHER -> {"C22"}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = [dirs |-> {<<"home">>, <<"cwd">>}, files |-> {}, env |-> <<>>]
Next ==
  /\ ei <= Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei]
         cls == TLCEval(Clauses(ev))
     IN IF cls = {} THEN ei' = ei + 1 /\ ti' = ti /\ st' = TLCEval(After(ev))
        ELSE /\ PrintT("@@" \o ToJson([id |-> Traces[ti].id, ei |-> ei, k |-> ev.k, cls |-> SetToSeq(cls),
                   props |-> SetToSeq(UNION {Props(c, Traces[ti].variant) : c \in cls}), exc |-> ev.exc]))
             /\ ei' = Len(Traces[ti].ev) + 1 /\ ti' = ti /\ st' = st
Spec == Init /\ [][Next]_<<ti, ei, st>>
=============================================================================
