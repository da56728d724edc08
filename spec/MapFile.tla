------------------------------ MODULE MapFile ------------------------------
(* The mapping file.  State: file = what is on disk (nothing, the whole        *)
(* mapping m, or a cut-off rest of it, as a crash leaves it).  Actions:        *)
(*   Write(m)   the file is the mapping m                                      *)
(*   Cut        the file is a proper prefix of itself                          *)
(*   Read       a whole file yields m itself, its entries survive the internal *)
(*              form, and the inverse maps undo the mapping; anything else is  *)
(*              refused                                                        *)
(*   Convert    a conversion with the global map, of a script that shares no   *)
(*              string with the entries: entries are kept as they are          *)
(* mapping: [char, str, alpha, vars, failed, c2cl, persist], characters and    *)
(* strings as code points, persist: seq of                                     *)
(* [k, len, ranges, ints, sub, psub, prefix, suffix, mids, to]                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad, file
vars == <<c, l, bad, file>>
Ev == Cases[c].ev
Set(q) == {q[i] : i \in DOMAIN q}
Nothing == [kind |-> "none", m |-> 0]
Cut == [kind |-> "cut", m |-> 0]
Whole(m) == [kind |-> "whole", m |-> m]
\* the same information: order of entries is immaterial, their number is not
SameList(p, q) == Len(p) = Len(q) /\ Set(p) = Set(q)
Entry(x) == [x EXCEPT !.ranges = Set(x.ranges)]
Entries(p) == {Entry(p[i]) : i \in DOMAIN p}
SameMap(x, y) ==
    IF ~SameList(x.char, y.char) THEN "the character map changed"
    ELSE IF ~SameList(x.str, y.str) THEN "the string map changed"
    ELSE IF ~SameList(x.alpha, y.alpha) THEN "the renaming changed"
    ELSE IF ~SameList(x.vars, y.vars) \/ ~SameList(x.failed, y.failed) THEN "the lists of variables changed"
    ELSE IF ~SameList(x.c2cl, y.c2cl) THEN "the list of char-to-char literals changed"
    ELSE IF Len(x.persist) # Len(y.persist) \/ Entries(x.persist) # Entries(y.persist) THEN "the persistent map changed"
    ELSE ""
Dom(q) == {p[1] : p \in Set(q)}
Img(q) == {p[2] : p \in Set(q)}
\* re undoes the character map; what it says beyond that is an exchange of the left-over characters
InverseOK(m, re) ==
    /\ Cardinality(Dom(re)) = Len(re)
    /\ \A p \in Set(m.char) : <<p[2], p[1]>> \in Set(re)
    /\ \A p \in Set(re) : p[1] \in Img(m.char) \/ (p[1] \in Dom(m.char) /\ p[2] \in Img(m.char) /\ p[2] \notin Dom(m.char))
    /\ Cardinality(Img(re)) = Len(re)
UnAlphaOK(m, un) == Len(un) = Len(m.alpha) /\ Set(un) = {<<p[2], p[1]>> : p \in Set(m.alpha)}

Outcome(e, f) ==
    CASE e.op = "write" -> IF e.r = "ok" THEN "" ELSE "a mapping cannot be written: " \o e.r
      [] e.op = "cut" -> ""
      [] e.op = "read" ->
           IF f.kind # "whole" THEN (IF e.r = "error" THEN "" ELSE "a damaged or missing file is read: " \o e.r)
           ELSE IF e.r # "ok" THEN "a mapping cannot be read back: " \o e.r
           ELSE LET s == SameMap(f.m, e.map) IN
                IF s # "" THEN s
                ELSE IF Len(e.meta) # Len(f.m.persist) \/ Entries(e.meta) # Entries(f.m.persist) THEN "an entry changes on its way through the internal form"
                ELSE IF ~InverseOK(f.m, e.re) THEN "the inverse character map does not undo the character map"
                ELSE IF ~UnAlphaOK(f.m, e.un) THEN "the inverse renaming does not undo the renaming"
                ELSE ""
      [] e.op = "convert" ->
           IF e.r # "ok" THEN "no conversion: " \o e.r
           ELSE IF f.kind = "whole" /\ ~Entries(f.m.persist) \subseteq Entries(e.map.persist) THEN "an entry of the global map is changed or lost"
           ELSE IF f.kind = "whole" /\ \E x \in Set(e.map.persist) : x.k \notin {y.k : y \in Set(f.m.persist)} /\ x.k \notin Set(e.lits) THEN "an entry is invented"
           ELSE ""
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ file = Nothing
Step ==
    /\ l \in 1..Len(Ev) /\ bad = ""
    /\ LET e == Ev[l] IN
       /\ bad' = Outcome(e, file)
       /\ IF bad' # "" THEN UNCHANGED <<l, file>>
          ELSE /\ l' = l + 1
               /\ file' = CASE e.op = "write" -> Whole(e.map) [] e.op = "cut" -> (IF file.kind = "none" THEN Nothing ELSE Cut)
                            [] e.op = "convert" -> Whole(e.map) [] OTHER -> file
    /\ UNCHANGED c
Done == /\ (l = Len(Ev) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad, at |-> l]))
        /\ l' = 0 /\ UNCHANGED <<c, bad, file>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
