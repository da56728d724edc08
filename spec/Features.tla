------------------------------ MODULE Features ------------------------------
(* Feature extraction.  State: position in the list of benchmarks, the rows    *)
(* written so far, whether the run was refused.  One action per listed file:    *)
(* a readable, parseable script appends the row of its occurrence counts, any   *)
(* other file (or an unknown dataset) ends the run with an error.              *)
EXTENDS Sx, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES c, pos, rows, st, bad
vars == <<c, pos, rows, st, bad>>
C == Cases[c]
\* column name, SMT-LIB operation
Columns == <<
  <<"str_concat", "str.++">>, <<"len", "str.len">>, <<"lex_ord", "str.<">>, <<"to_re", "str.to_re">>, <<"in_re", "str.in_re">>,
  <<"re_none", "re.none">>, <<"re_all", "re.all">>, <<"re_all_char", "re.allchar">>, <<"re_concat", "re.++">>, <<"re_union", "re.union">>,
  <<"re_intersect", "re.inter">>, <<"re_kleene_star", "re.*">>, <<"ref_clos_lex_ord", "str.<=">>, <<"sing_str_at", "str.at">>,
  <<"substr", "str.substr">>, <<"prefix_of", "str.prefixof">>, <<"suffix_of", "str.suffixof">>, <<"contains", "str.contains">>,
  <<"index_of", "str.indexof">>, <<"replace", "str.replace">>, <<"replace_all", "str.replace_all">>, <<"replace_re", "str.replace_re">>,
  <<"replace_re_all", "str.replace_re_all">>, <<"re_compl", "re.comp">>, <<"re_diff", "re.diff">>, <<"re_kleene_cross", "re.+">>,
  <<"re_opt", "re.opt">>, <<"re_range", "re.range">>, <<"re_pow", "re.^">>, <<"re_loop", "re.loop">>, <<"is_digit", "str.is_digit">>,
  <<"to_code", "str.to_code">>, <<"from_code", "str.from_code">>, <<"to_int", "str.to_int">>, <<"from_int", "str.from_int">> >>
OpOf(col) == (CHOOSE p \in Rng1(Columns) : p[1] = col)[2]
Header(ds) ==
    CASE ds \in {"smtcomp", "script"} -> <<"str_concat", "len", "to_re", "in_re", "re_concat", "re_union", "re_kleene_star", "sing_str_at", "substr",
             "prefix_of", "contains", "index_of", "replace", "re_kleene_cross", "re_range", "to_int", "from_int">>
      [] ds = "kepler" -> <<"str_concat", "len">>
      [] OTHER -> [k \in 1..Len(Columns) |-> Columns[k][1]]
Known(ds) == ds \in {"smtcomp", "script", "kepler", "other"}
\* ------------------------------------------------------------------ occurrences
\* the operations of a term, one entry per occurrence
RECURSIVE Ops(_), OpsQ(_)
OpsQ(ts) == IF ts = <<>> THEN <<>> ELSE Ops(Head(ts)) \o OpsQ(Tail(ts))
Ops(x) ==
    IF IsSym(x) THEN <<x.t>>
    ELSE IF ~IsList(x) THEN <<>>
    ELSE IF Head1(x) = "let" THEN OpsQ([k \in 1..Len(x.a[2].a) |-> x.a[2].a[k].a[2]]) \o Ops(x.a[3])
    ELSE IF Head1(x) \in {"forall", "exists"} THEN Ops(x.a[3])
    ELSE IF Head1(x) = "!" THEN Ops(x.a[2])
    ELSE IF IsSym(x.a[1]) THEN <<x.a[1].t>> \o OpsQ(Tail(x.a))
    ELSE <<x.a[1].a[2].t>> \o OpsQ(Tail(x.a))         \* ((_ op i j) args)
Asserted(cmds) == LET q == SelectSeq(cmds, LAMBDA x : Head1(x) = "assert") IN OpsQ([k \in 1..Len(q) |-> q[k].a[2]])
Row(ds, cmds) ==
    LET o == TLCEval(Asserted(cmds))
        n(f) == Cardinality({k \in 1..Len(o) : o[k] = f})
    IN [k \in 1..Len(Header(ds)) |-> n(OpOf(Header(ds)[k]))]
\* ------------------------------------------------------------------ the machine
Init == c \in 1..Len(Cases) /\ pos = 1 /\ rows = <<>> /\ st = "run" /\ bad = ""
Extract == /\ st = "run" /\ pos <= Len(C.list)
           /\ IF Known(C.ds) /\ C.list[pos].kind = "ok"
              THEN rows' = Append(rows, Row(C.ds, C.list[pos].in)) /\ st' = "run"
              ELSE rows' = rows /\ st' = "refused"
           /\ pos' = pos + 1 /\ UNCHANGED <<c, bad>>
Finish == /\ st = "run" /\ pos > Len(C.list) /\ st' = "done" /\ UNCHANGED <<c, pos, rows, bad>>
Prefix(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
\* P01: the counts;  P02: the table around them
Counts == IF \E k \in 1..(IF Len(rows) < Len(C.rows) THEN Len(rows) ELSE Len(C.rows)) : rows[k] # C.rows[k] THEN "a row does not hold the occurrence counts" ELSE ""
Table ==
    IF C.exit \notin {0, 1} THEN "the run ends abnormally: " \o C.how
    ELSE IF st = "refused" /\ C.exit = 0 THEN "a run that has to be refused succeeds"
    ELSE IF st = "done" /\ C.exit # 0 /\ Known(C.ds) THEN "a run over readable benchmarks fails"
    ELSE IF C.shape # "" THEN C.shape
    ELSE IF (st = "done" \/ Len(C.rows) > 0) /\ Known(C.ds) /\ C.header # Header(C.ds) THEN "the header is not the header of the dataset"
    ELSE IF ~Prefix(C.rows, rows) THEN "the rows are not the rows of the listed benchmarks in order"
    ELSE IF st = "done" /\ Len(C.rows) # Len(rows) THEN "a row is missing"
    ELSE ""
Judge == /\ st \in {"done", "refused"} /\ st' = "judged"
         /\ bad' = IF Prop = "P01" THEN (IF C.exit \notin {0, 1} THEN C.how ELSE Counts) ELSE Table
         /\ PrintT(ToJson([id |-> C.id, bad |-> bad', rows |-> Len(rows), total |-> SumS([k \in 1..Len(rows) |-> SumS(rows[k])])]))
         /\ UNCHANGED <<c, pos, rows>>
Next == Extract \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
