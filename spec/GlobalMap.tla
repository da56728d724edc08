------------------------------ MODULE GlobalMap ------------------------------
(* A history of conversions with the global map.  State g: the persistent      *)
(* entries of global_mapping.json.  One action Convert(script): choose a        *)
(* mapping that reuses every earlier entry which satisfies what the script      *)
(* needs, keeps the entries of other scripts, and is a correct single-file      *)
(* outcome.  entry: [k, len, ranges, ints, sub, prefix, suffix, mids, to]      *)
EXTENDS Transform, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad, g, reused
vars == <<c, l, bad, g, reused>>
Ev == Cases[c].ev

Keys(E) == {e.k : e \in E}
Ent(E, w) == CHOOSE e \in E : e.k = w
IntLev(i) == CASE i = "No" -> 0 [] i = "AsInts" -> 1 [] OTHER -> 2
FileRanges(cmds) ==
    LET fs == UNION {x.f : x \in Contexts(cmds)} IN
    {<<r[1][1], r[2][1]>> : r \in {q \in AllRanges(cmds) : Len(q[1]) = 1 /\ Len(q[2]) = 1}}
    \cup (IF fs \cap {"str.to_int", "str.from_int", "str.is_digit", "str.to_code", "str.from_code",
                        "str.indexof", "str.at", "str.substr"} # {} THEN {<<48, 57>>} ELSE {})
\* the earlier entry o satisfies what the entry n of this conversion records as needed
Satisfies(o, n, fr) ==
    /\ n.len => o.len
    /\ Rng1(n.ranges) \subseteq Rng1(o.ranges)
    /\ IntLev(n.ints) <= IntLev(o.ints)
    /\ n.sub => /\ o.prefix = n.prefix /\ o.suffix = n.suffix /\ o.mids = n.mids
                /\ fr \subseteq Rng1(o.ranges)
\* the ranges of this script as they are mapped now; where w and v are in them
InRanges(cmds, al, w, v) ==
    LET P == Pairs(al)
        M(x) == (CHOOSE p \in P : p[1] = x)[2]
        \* the digit range of integer operators need not be written in the script
        To(x) == IF x \in {p[1] : p \in P} THEN M(x)[1] ELSE x[1]
        Same(r) == LET lo == To(r[1])
                       hi == To(r[2])
                       In(x) == x \in r[1][1]..r[2][1]
                       InM(x) == x \in lo..hi
                   IN /\ (\A k \in 1..Len(w) : In(w[k])) = (\A k \in 1..Len(v) : InM(v[k]))
                      /\ (\E k \in 1..Len(w) : In(w[k])) = (\E k \in 1..Len(v) : InM(v[k]))
    IN \A r \in {<< <<q[1]>>, <<q[2]>> >> : q \in FileRanges(cmds)} :
           (r = << <<48>>, <<57>> >> \/ (r[1] \in {p[1] : p \in P} /\ r[2] \in {p[1] : p \in P})) => Same(r)
Outcome(cmds, e, before) ==
    IF e.r # "ok" THEN "no output: " \o e.r
    ELSE IF e.map # e.file THEN "global_mapping.json is not the mapping of the run"
    ELSE LET al == AlignAll(cmds, e.out)
             SM == Rng1(e.map.str)
             fell == e.map.char # <<>>            \* char-to-char, asked for or fallen back to
             after == Rng1(e.map.persist)
             m(w) == (CHOOSE p \in SM : p[1] = w)[2]
             inSM == {p[1] : p \in SM}
             L == LitSet(cmds)
             fr == FileRanges(cmds)
             ends == UNION {{<<r[1]>>, <<r[2]>>} : r \in fr} \cup {<<48>>, <<57>>}
             stale(x) == \E w \in Rng1(x.mids) : w \in inSM /\ ~ContW(x.to, m(w))
             s1 == ShapeOK(al)
             s2 == LitsOK(cmds, al, e.map, e.mode)
             s3 == MapOK(cmds, al, e.map, IF fell THEN "c2c" ELSE e.mode)
             s4 == IF fell THEN (IF e.mode = "c2c" THEN CharOK(cmds, al, e.map) ELSE "") ELSE RelOK(cmds, al)
         IN IF s1 # "" THEN s1
            ELSE IF e.map.failed # <<>> THEN (IF MayRefuse(cmds) THEN "" ELSE "a supported script is refused")
            ELSE IF s2 # "" THEN s2 ELSE IF s3 # "" THEN s3 ELSE IF s4 # "" THEN s4
            ELSE IF Cardinality(Keys(after)) # Len(e.map.persist) THEN "a string has two persistent entries"
            \* every literal whose earlier mapping satisfies what is needed keeps it
            ELSE IF ~fell /\ \E p \in Pairs(al) :
                      /\ p[1] \in Keys(before) /\ p[1] \notin ends /\ p[1] # <<>> /\ p[1] \in Keys(after)
                      /\ LET o == Ent(before, p[1])
                             n == Ent(after, p[1])
                         IN /\ p[2] # o.to /\ Satisfies(o, n, fr) /\ InRanges(cmds, al, p[1], o.to)
                            /\ ~\E q \in SM : q[1] # p[1] /\ q[2] = o.to
                 THEN "a literal is mapped anew although its earlier mapping satisfies what is needed"
            \* the persistent entries hold the mapping of this run
            ELSE IF ~fell /\ \E x \in after : x.k \in inSM /\ x.k \notin ends /\ x.to # m(x.k) THEN "a persistent entry is not the mapping used"
            ELSE IF ~fell /\ \E p \in Pairs(al) : p[1] # <<>> /\ p[1] \notin Keys(after) /\ p[1] \notin ends
                                     /\ ~(p[1] \in Keys(before) /\ stale(Ent(before, p[1])))
                 THEN "a mapping of this run is not in the persistent map"
            \* entries of other scripts stay, unless a string they contain was remapped
            ELSE IF \E x \in before : /\ x.k \notin inSM /\ x \notin after /\ ~stale(x)
                                      /\ ~(fell /\ \E w \in L : ContW(w, x.k)) /\ x.k \notin ends
                 THEN "an entry of an earlier script is lost"
            ELSE IF \E x \in after : x \notin before /\ x.k \notin {<<48>>, <<57>>} /\ ~\E w \in L : ContW(w, x.k)
                 THEN "an entry is invented"
            ELSE ""
Reused(cmds, e, before) == Cardinality({p \in Pairs(AlignAll(cmds, e.out)) : p[1] \in Keys(before) /\ p[2] = Ent(before, p[1]).to})

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ g = {} /\ reused = 0
Convert ==
    /\ l \in 1..Len(Ev) /\ bad = ""
    /\ bad' = Outcome(Cases[c].in[Ev[l].at], Ev[l], g)
    /\ IF bad' = "" THEN /\ l' = l + 1 /\ g' = Rng1(Ev[l].file.persist)
                         /\ reused' = reused + Reused(Cases[c].in[Ev[l].at], Ev[l], g)
       ELSE UNCHANGED <<l, g, reused>>
    /\ UNCHANGED c
Done == /\ (l = Len(Ev) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad, reused |-> reused, at |-> l]))
        /\ l' = 0 /\ UNCHANGED <<c, bad, g, reused>>
Next == Convert \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
