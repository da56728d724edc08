------------------------------ MODULE Transform ------------------------------
(* The string transformer as a nondeterministic transducer.  A run renames   *)
(* the declared symbols by Alpha, chooses a literal mapping, and writes       *)
(* Expected(in) with every literal replaced.  This module says which outputs  *)
(* and mapping files are outcomes of the transducer (T01-T05, T08).           *)
EXTENDS Sx

\* ------------------------------------------------------------------ renaming and layout
IsDecl(x)  == Head1(x) \in {"declare-const", "declare-fun"}
IsStart(x) == Head1(x) \in {"set-logic", "set-info", "set-option"}
DeclSeq(cmds) == SelectSeq(cmds, IsDecl)
DeclNames(cmds) == LET d == DeclSeq(cmds) IN [k \in 1..Len(d) |-> d[k].a[2].t]
\* the k-th declaration gets the k-th name; a name declared again (once the scope of the
\* earlier declaration is popped) stands for the later declaration from there on
AlphaN(n) == [s \in Rng1(n) |-> "a" \o ToString((CHOOSE k \in 1..Len(n) : n[k] = s /\ \A j \in (k+1)..Len(n) : n[j] # s) - 1)]
Alpha(cmds) == AlphaN(DeclNames(cmds))
NewNames(cmds) == {"a" \o ToString(k - 1) : k \in 1..Len(DeclNames(cmds))}
Ren(al, s) == IF s \in DOMAIN al THEN al[s] ELSE s

\* names a binder takes away from a renaming
Hide(al, S) == [s \in DOMAIN al \ S |-> al[s]]
RECURSIVE RenT(_,_)
RenT(x, al) ==
    IF IsSym(x) THEN Sym(Ren(al, x.t))
    ELSE IF ~IsList(x) THEN x
    ELSE IF Head1(x) = "let"
         THEN Ls(<<x.a[1], Ls([k \in 1..Len(x.a[2].a) |-> Ls(<<x.a[2].a[k].a[1], RenT(x.a[2].a[k].a[2], al)>>)]),
                   RenT(x.a[3], Hide(al, {b.a[1].t : b \in Rng1(x.a[2].a)}))>>)
    ELSE IF Head1(x) \in {"forall", "exists"} THEN Ls(<<x.a[1], x.a[2], RenT(x.a[3], Hide(al, {b.a[1].t : b \in Rng1(x.a[2].a)}))>>)
    ELSE IF Head1(x) = "_" THEN x
    ELSE Ls([k \in 1..Len(x.a) |-> RenT(x.a[k], al)])
RenCmd(x, al) ==
    LET h == Head1(x) IN
    CASE h = "declare-const" -> Ls(<<x.a[1], Sym(al[x.a[2].t]), x.a[3]>>)
      [] h = "declare-fun"   -> Ls(<<x.a[1], Sym(al[x.a[2].t]), x.a[3], x.a[4]>>)
      [] h = "assert"        -> Ls(<<x.a[1], RenT(x.a[2], al)>>)
      [] h = "define-fun"    -> Ls(<<x.a[1], x.a[2], x.a[3], x.a[4], RenT(x.a[5], Hide(al, {b.a[1].t : b \in Rng1(x.a[3].a)}))>>)
      [] h = "get-value"     -> Ls(<<x.a[1], Ls([k \in 1..Len(x.a[2].a) |-> RenT(x.a[2].a[k], al)])>>)
      [] h = "check-sat-assuming" -> Ls(<<x.a[1], Ls([k \in 1..Len(x.a[2].a) |-> RenT(x.a[2].a[k], al)])>>)
      [] OTHER -> x
\* settings first, then the declarations, then everything else, each in its order
Layout(cmds) == SelectSeq(cmds, IsStart) \o DeclSeq(cmds)
                \o SelectSeq(cmds, LAMBDA x : ~IsStart(x) /\ ~IsDecl(x))
RECURSIVE RenAll(_,_,_)
RenAll(todo, n, al) ==
    IF todo = <<>> THEN <<>>
    ELSE LET x  == Head(todo)
             n2 == IF IsDecl(x) THEN Append(n, x.a[2].t) ELSE n
             a2 == IF IsDecl(x) THEN TLCEval(AlphaN(n2)) ELSE al
         IN <<RenCmd(x, a2)>> \o RenAll(Tail(todo), n2, a2)
Expected(cmds) == Layout(RenAll(cmds, <<>>, AlphaN(<<>>)))

\* ------------------------------------------------------------------ alignment with an output
\* a set of [k |-> "lit", l, m] for aligned literals, [k |-> "name"|"shape", ...] for differences
Pair(l, m) == [k |-> "lit", l |-> l, m |-> m, x |-> Ls(<<>>), y |-> Ls(<<>>)]
Diff(k, e, o) == [k |-> k, l |-> <<>>, m |-> <<>>, x |-> e, y |-> o]
RECURSIVE Align(_,_)
Align(e, o) ==
    IF IsStr(e) /\ IsStr(o) THEN {Pair(e.s, o.s)}
    ELSE IF IsSym(e) /\ IsSym(o) THEN IF e.t = o.t THEN {} ELSE {Diff("name", e, o)}
    ELSE IF IsList(e) /\ IsList(o)
    THEN IF Len(e.a) # Len(o.a) THEN {Diff("shape", e, o)} ELSE UNION {Align(e.a[k], o.a[k]) : k \in 1..Len(e.a)}
    ELSE IF DOMAIN e = DOMAIN o /\ e = o THEN {} ELSE {Diff("shape", e, o)}
\* literals in settings and echoes are not terms: they stay
AlignCmd(e, o) == IF Head1(e) \in {"set-info", "set-option", "set-logic", "echo"}
                  THEN (IF e = o THEN {} ELSE {Diff("shape", e, o)}) ELSE Align(e, o)
AlignAll(cmds, out) ==
    LET ex == Expected(cmds) IN
    IF Len(ex) # Len(out) THEN {Diff("shape", Num(Len(ex)), Num(Len(out)))}
    ELSE UNION {AlignCmd(ex[k], out[k]) : k \in 1..Len(ex)}
Pairs(al) == {<<d.l, d.m>> : d \in {x \in al : x.k = "lit"}}

\* ------------------------------------------------------------------ words
StartsW(w, u) == Len(u) <= Len(w) /\ SubSeq(w, 1, Len(u)) = u
EndsW(w, u)   == Len(u) <= Len(w) /\ SubSeq(w, Len(w) - Len(u) + 1, Len(w)) = u
ContW(w, u)   == \E k \in 0..(Len(w) - Len(u)) : SubSeq(w, k + 1, k + Len(u)) = u
IsDig(c) == c \in 48..57
AllDig(w) == Len(w) > 0 /\ \A k \in 1..Len(w) : IsDig(w[k])

\* ------------------------------------------------------------------ contexts
StrRet == {"str.++", "str.at", "str.substr", "str.replace", "str.replace_all", "str.replace_re",
           "str.replace_re_all", "str.from_int", "str.from_code"}
ReRet  == {"str.to_re", "re.++", "re.union", "re.inter", "re.*", "re.+", "re.opt", "re.comp", "re.diff",
           "re.range", "re.loop", "re.^", "re.all", "re.none", "re.allchar"}
Preds  == {"str.contains", "str.prefixof", "str.suffixof", "str.in_re", "str.is_digit", "str.<", "str.<=",
           "str.len", "str.indexof", "str.to_int", "str.to_code"}
\* the operator of an application, looking through indices
OpOf(x) == IF ~IsList(x) \/ Len(x.a) = 0 THEN ""
           ELSE IF IsSym(x.a[1]) THEN x.a[1].t
           ELSE IF IsList(x.a[1]) /\ Head1(x.a[1]) = "_" THEN x.a[1].a[2].t ELSE ""
StrVars(cmds) == {d.a[2].t : d \in {x \in Rng1(DeclSeq(cmds)) :
                     IF Head1(x) = "declare-const" THEN IsSymT(x.a[3], "String") ELSE x.a[3].a = <<>> /\ IsSymT(x.a[4], "String")}}
RECURSIVE IsSR(_,_)
IsSR(x, sv) == IsStr(x) \/ (IsSym(x) /\ (x.t \in sv \/ x.t \in {"re.all", "re.none", "re.allchar"}))
               \/ OpOf(x) \in StrRet \cup ReRet
               \/ (Head1(x) = "ite" /\ Len(x.a) = 4 /\ (IsSR(x.a[3], sv) \/ IsSR(x.a[4], sv)))
IsStrApp(x, sv) == LET f == OpOf(x) IN
    f \in StrRet \cup ReRet \cup Preds
    \/ (f \in {"=", "distinct"} /\ \E k \in 2..Len(x.a) : IsSR(x.a[k], sv))
EmptyLink == [f |-> {}, v |-> {}, l |-> {}, r |-> {}]
Join(a, b) == [f |-> a.f \cup b.f, v |-> a.v \cup b.v, l |-> a.l \cup b.l, r |-> a.r \cup b.r]
RECURSIVE JoinAll(_)
JoinAll(S) == IF S = {} THEN EmptyLink ELSE LET x == CHOOSE y \in S : TRUE IN Join(x, JoinAll(S \ {x}))
\* what one string-valued operand contributes to the context of the function it is given to
RECURSIVE Feeds(_,_)
Feeds(x, sv) ==
    IF IsStr(x) THEN [EmptyLink EXCEPT !.l = {x.s}]
    ELSE IF IsSym(x) THEN IF x.t \in sv THEN [EmptyLink EXCEPT !.v = {x.t}]
                          ELSE IF x.t \in {"re.all", "re.none", "re.allchar"} THEN [EmptyLink EXCEPT !.f = {x.t}] ELSE EmptyLink
    ELSE IF OpOf(x) = "re.range" /\ Len(x.a) = 3 /\ IsStr(x.a[2]) /\ IsStr(x.a[3])
         THEN [f |-> {"re.range"}, v |-> {}, l |-> {}, r |-> {<<x.a[2].s, x.a[3].s>>}]
    ELSE IF Head1(x) = "ite" THEN Join(Feeds(x.a[3], sv), Feeds(x.a[4], sv))
    ELSE IF OpOf(x) \in StrRet \cup ReRet \cup Preds \cup {"=", "distinct"}
         THEN LET kids == {x.a[k] : k \in 2..Len(x.a)} IN
              Join([EmptyLink EXCEPT !.f = {OpOf(x)}], JoinAll({Feeds(y, sv) : y \in {z \in kids : IsSR(z, sv)}}))
    ELSE EmptyLink
\* the contexts of the maximal string function applications of a term
RECURSIVE Links(_,_,_)
Links(x, sv, top) ==
    IF ~IsList(x) \/ Head1(x) = "_" THEN {}
    ELSE LET sub == UNION {Links(x.a[k], sv, IF Head1(x) = "ite" /\ k > 2 THEN top
                                            ELSE ~(IsStrApp(x, sv) /\ IsSR(x.a[k], sv))) : k \in 1..Len(x.a)}
         IN IF top /\ IsStrApp(x, sv) THEN sub \cup {Feeds(x, sv)} ELSE sub
Terms(cmds) == UNION {IF Head1(c) = "assert" THEN {c.a[2]}
                      ELSE IF Head1(c) = "define-fun" THEN {c.a[5]}
                      ELSE IF Head1(c) \in {"get-value", "check-sat-assuming"} THEN Rng1(c.a[2].a) ELSE {} : c \in Rng1(cmds)}
RECURSIVE MergeL(_,_)
MergeL(todo, done) ==
    IF todo = {} THEN done
    ELSE LET x == CHOOSE y \in todo : TRUE
             near == {y \in done : y.v \cap x.v # {}}
         IN  MergeL(todo \ {x}, (done \ near) \cup {Join(x, JoinAll(near))})
Contexts(cmds) == LET ex == TLCEval(Expected(cmds))
                      sv == StrVars(ex)
                  IN MergeL(UNION {Links(t, sv, TRUE) : t \in Terms(ex)}, {})
AllRanges(cmds) == UNION {c.r : c \in Contexts(cmds)}

\* ------------------------------------------------------------------ T01
\* a binder of a name that the renaming introduces below it
RECURSIVE FreeNew(_,_)
FreeNew(x, n) == (IsSym(x) /\ x.t = n) \/ (IsList(x) /\ \E y \in Rng1(x.a) : FreeNew(y, n))
RECURSIVE Capt(_,_)
Capt(x, al) ==
    IsList(x) /\ ( \/ \E y \in Rng1(x.a) : Capt(y, al)
                  \/ /\ Head1(x) \in {"let", "forall", "exists"}
                     /\ \E b \in Rng1(x.a[2].a) : \E s \in DOMAIN al : al[s] = b.a[1].t /\ s # b.a[1].t /\ FreeNew(x.a[3], s))
CapturedIn(cmds) == \E t \in Terms(cmds) : Capt(t, Alpha(cmds))
RenamingOK(cmds, al, map) ==
    IF \E d \in al : d.k = "name" /\ {d.x.t, d.y.t} \cap NewNames(cmds) # {} THEN "an occurrence is not renamed as declared"
    ELSE IF CapturedIn(cmds) THEN "a renamed symbol is captured by a binder"
    ELSE IF Rng1(map.alpha) # {<<s, Alpha(cmds)[s]>> : s \in DOMAIN Alpha(cmds)} THEN "alpha_renaming_map is not the renaming"
    ELSE ""
\* ------------------------------------------------------------------ T02
ShapeOK(al) == IF \E d \in al : d.k # "lit"
               THEN LET d == CHOOSE x \in al : x.k # "lit" IN "differs: " \o ToString(<<d.x, d.y>>) ELSE ""
\* ------------------------------------------------------------------ T03
RangeEnds(cmds) == UNION {{r[1], r[2]} : r \in AllRanges(cmds)}
LitsOK(cmds, al, map, mode) ==
    LET P == Pairs(al)
        SM == Rng1(map.str)
        Plain == UNION {c.l : c \in Contexts(cmds)}
    IN  IF \E p, q \in P : p[1] = q[1] /\ p[2] # q[2] THEN "one literal has two replacements"
        ELSE IF \E p, q \in P : p[1] # q[1] /\ p[2] = q[2] /\ {p[1], q[1]} \subseteq Plain THEN "two literals have one replacement"
        ELSE IF \E p \in P : p[1] = <<>> /\ p[2] # <<>> THEN "the empty string is replaced"
        ELSE IF \E p \in P : p \notin SM THEN "a replacement is not in string_map"
        ELSE IF \E p, q \in SM : p[1] = q[1] /\ p[2] # q[2] THEN "string_map is not a function"
        ELSE IF \E p \in P : \E k \in 1..Len(p[2]) : p[2][k] \in {34, 92} /\ p[2][k] \notin Rng1(p[1])
             THEN "a replacement contains a quote or backslash"
        ELSE ""
\* string_map mentions only literals of the script (pieces of literals, range ends and
\* the ends of the digit range may be listed too)
LitSet(cmds) == UNION {c.l \cup UNION {{r[1], r[2]} : r \in c.r} : c \in Contexts(cmds)}
MapOK(cmds, al, map, mode) ==
    LET L == LitSet(cmds)
        SM == Rng1(map.str)
    IN  IF mode = "c2c" /\ \E p \in SM : p \notin Pairs(al) THEN "string_map lists a replacement that was not made"
        ELSE IF \E p \in SM : p[1] \notin {<<48>>, <<57>>} /\ ~\E w \in L : ContW(w, p[1]) THEN "string_map lists a string that is in no literal"
        ELSE ""
\* ------------------------------------------------------------------ T04
RanLo(r) == IF r[1][1] <= r[2][1] THEN r[1][1] ELSE r[2][1]
RanHi(r) == IF r[1][1] <= r[2][1] THEN r[2][1] ELSE r[1][1]
CharOK(cmds, al, map) ==
    LET P == Pairs(al)
        CM == Rng1(map.char)
        RE == Rng1(map.re)
        dom == {x[1] : x \in CM}
        f == [c \in dom |-> (CHOOSE x \in CM : x[1] = c)[2]]
        Used == UNION {Rng1(p[1]) : p \in P}
        rs == AllRanges(cmds)
        fs == UNION {c.f : c \in Contexts(cmds)}
        conv == fs \cap {"str.to_int", "str.from_int", "str.to_code", "str.from_code"} # {}
        dig == conv \/ "str.is_digit" \in fs
    IN  IF \E x, y \in CM : x[1] = y[1] /\ x[2] # y[2] THEN "char_map is not a function"
        ELSE IF \E x, y \in CM : x[1] # y[1] /\ x[2] = y[2] THEN "char_map is not injective"
        ELSE IF ~(Used \subseteq dom) THEN "a character of a literal is not in char_map"
        ELSE IF \E p \in P : p[2] # [k \in 1..Len(p[1]) |-> f[p[1][k]]] THEN "a replacement is not the image under char_map"
        ELSE IF \E r \in rs : ~({RanLo(r), RanHi(r)} \subseteq dom) THEN "a range end is not mapped"
        ELSE IF \E r \in rs : (r[1][1] <= r[2][1]) # (f[r[1][1]] <= f[r[2][1]])
                             \/ \E c \in dom : (c \in r[1][1]..r[2][1]) # (f[c] \in f[r[1][1]]..f[r[2][1]]) THEN "range membership changes"
        ELSE IF conv /\ \E c \in dom : IsDig(c) /\ f[c] # c THEN "a converted digit changes"
        ELSE IF dig /\ \E c \in dom : IsDig(c) # IsDig(f[c]) THEN "a digit test changes"
        ELSE IF \E x, y \in RE : x[1] = y[1] /\ x[2] # y[2] THEN "the inverse map is not a function"
        ELSE IF \E x \in CM : <<x[2], x[1]>> \notin RE THEN "the inverse map does not undo the map"
        ELSE IF \E x, y \in RE : x[1] # y[1] /\ x[2] = y[2] THEN "the inverse map confuses characters"
        ELSE IF \E r \in rs : \E c \in (f[r[1][1]]..f[r[2][1]]) :
                  LET u == IF \E x \in RE : x[1] = c THEN (CHOOSE x \in RE : x[1] = c)[2] ELSE c
                  IN  c \in {x[2] : x \in CM} /\ u \notin r[1][1]..r[2][1] THEN "a character of a mapped range is reconstructed outside it"
        ELSE ""
\* ------------------------------------------------------------------ T05
NeedSub == {"str.contains", "str.prefixof", "str.suffixof", "str.in_re", "str.to_re", "str.replace", "str.replace_all",
            "str.replace_re", "str.replace_re_all", "str.++", "re.++", "str.indexof", "str.at", "str.substr"}
NeedLen == {"str.len", "str.indexof", "str.at", "str.substr", "re.allchar", "re.loop", "re.^"}
NeedDig == {"str.is_digit"}
NeedVal == {"str.to_int", "str.from_int"}
RelOK(cmds, al) ==
    LET P == Pairs(al)
        M(w) == (CHOOSE p \in P : p[1] = w)[2]
        Bad(c) ==
          LET L == {l \in c.l : \E p \in P : p[1] = l} IN
          IF \E u, v \in L : (u = v) # (M(u) = M(v)) THEN "equality of literals is lost"
          ELSE IF \E u \in L : (u = <<>>) # (M(u) = <<>>) THEN "emptiness is lost"
          ELSE IF c.f \cap NeedSub # {} /\ \E u, v \in L : ContW(u, v) # ContW(M(u), M(v)) THEN "containment is lost"
          ELSE IF c.f \cap NeedSub # {} /\ \E u, v \in L : StartsW(u, v) # StartsW(M(u), M(v)) THEN "a prefix relation is lost"
          ELSE IF c.f \cap NeedSub # {} /\ \E u, v \in L : EndsW(u, v) # EndsW(M(u), M(v)) THEN "a suffix relation is lost"
          ELSE IF c.f \cap NeedLen # {} /\ \E u \in L : Len(u) # Len(M(u)) THEN "a length is lost"
          ELSE IF c.f \cap NeedDig # {} /\ \E u \in L : (Len(u) = 1 /\ IsDig(u[1])) # (Len(M(u)) = 1 /\ IsDig(M(u)[1])) THEN "a digit is lost"
          ELSE IF c.f \cap NeedVal # {} /\ \E u \in L : IF AllDig(u) THEN M(u) # u ELSE AllDig(M(u)) THEN "a numeral is lost"
          ELSE IF \E r \in c.r :
                    \/ \E e \in {r[1], r[2]} : ~(\E p \in P : p[1] = e) \/ Len(M(e)) # 1
                    \* (a reversed range is empty)
                    \/ LET In(x) == x \in r[1][1]..r[2][1]
                           InM(x) == x \in M(r[1])[1]..M(r[2])[1]
                       IN \/ (r[1][1] <= r[2][1]) # (M(r[1])[1] <= M(r[2])[1])
                          \/ \E u \in L : \/ (\A k \in 1..Len(u) : In(u[k])) # (\A k \in 1..Len(M(u)) : InM(M(u)[k]))
                                          \/ (\E k \in 1..Len(u) : In(u[k])) # (\E k \in 1..Len(M(u)) : InM(M(u)[k]))
               THEN "range membership of a literal is lost"
          ELSE ""
        bads == {Bad(c) : c \in Contexts(cmds)} \ {""}
    IN IF bads = {} THEN "" ELSE CHOOSE b \in bads : TRUE
\* ------------------------------------------------------------------ T08
Lex == {"str.<", "str.<="}
\* a range that is not between two different one-character literals is not supported either
OddRange(r) == Len(r[1]) # 1 \/ Len(r[2]) # 1 \/ r[1] = r[2]
Refusable(c) == (c.f \cap Lex # {} /\ (c.l # {} \/ c.r # {})) \/ \E r \in c.r : OddRange(r)
MustRefuse(c) == c.f \cap Lex # {} /\ (c.l # {} \/ c.r # {})
MayRefuse(cmds) == \E c \in Contexts(cmds) : Refusable(c)
FailOK(cmds, al, map) ==
    LET keep == UNION {c.l \cup UNION {{r[1], r[2]} : r \in c.r} : c \in {x \in Contexts(cmds) : MustRefuse(x)}}
    IN  IF ~MayRefuse(cmds) /\ map.failed # <<>> THEN "a supported script is reported as failed"
        ELSE IF keep # {} /\ map.failed = <<>> THEN "an unsupported function is not reported"
        ELSE IF \E p \in Pairs(al) : p[1] \in keep /\ p[1] # p[2] THEN "a literal under an unsupported function is changed"
        ELSE ""
=============================================================================
