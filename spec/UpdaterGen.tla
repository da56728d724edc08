----------------------------- MODULE UpdaterGen -----------------------------
(* Behaviours = scripts given to the updater.  Exhaustive mode (Enum):      *)
(* every literal over an alphabet; every sequence of command kinds.         *)
(* Seeded mode: the grammar's choices are resolved by Rng.                  *)
EXTENDS StrGen, Escapes, Json, IOUtils
Mode == IOEnv.MODE
N    == atoi(IOEnv.N)
S0   == atoi(IOEnv.SEED)
VARIABLES id, cmds, k

\* ------------------------------------------------ exhaustive: literals
Alpha == IF IOEnv.ALPHA = "esc" THEN <<92, 120, 97, 110, 52, 49, 117, 123, 125>>   \* \ x a n 4 1 u { }
         ELSE IF IOEnv.ALPHA = "ctl" THEN <<92, 97, 98, 102, 110, 114, 116, 118, 120, 65, 71, 32, 34>>
         ELSE <<92, 120, 52, 110>>
\* ------------------------------------------------ exhaustive: command kinds
KindCmd(x, j) ==
    CASE x = 1 -> App("set-option", <<Sym(":produce-models"), Sym("true")>>)
      [] x = 2 -> App("set-info", <<Sym(":status"), Sym("sat")>>)
      [] x = 3 -> App("set-logic", <<Sym("ALL")>>)
      [] x = 4 -> App("declare-const", <<Sym("v" \o ToString(j)), Sym("Int")>>)
      [] x = 5 -> App("assert", <<App("=", <<App("str.len", <<Str(<<97>>)>>), Num(1)>>)>>)
      [] x = 6 -> App("assert", <<App("=", <<App("+", <<Num(1), App("str.to.int", <<Str(<<97>>)>>)>>), Num(1)>>)>>)
      [] x = 7 -> App("check-sat", <<>>)
      [] x = 8 -> App("define-fun", <<Sym("d" \o ToString(j)), Ls(<<>>), Sym("Bool"), App("<", <<Num(1), Num(2)>>)>>)
      [] x = 9 -> App("set-option", <<Sym(":produce-proofs"), Sym("false")>>)
NKinds == 9
\* ------------------------------------------------ seeded: literals and scripts
Piece(s) == Elem(s, << <<92,120,52,49>>, <<92,120,52>>, <<92,120>>, <<92>>, <<92,110>>, <<92,97>>, <<92,98>>, <<92,102>>,
   <<92,114>>, <<92,116>>, <<92,118>>, <<92,117,123,52,49,125>>, <<92,117,48,48,52,49>>, <<92,117,123>>, <<92,117>>,
   <<92,92>>, <<120>>, <<52,49>>, <<125>>, <<123>>, <<34>>, <<97>>, <<110,98>>, <<65,70>>, <<92,120,70,102>>,
   <<92,117,123,49,50,51,52,53,125>>, <<92,117,123,51,70,70,70,70,125>>, <<92,101>>, <<32>>, <<92,120,103>>, <<92,34>>,
   <<92,120,97,71>>, <<92,120,92,110>>, <<92,88,52,49>>, <<233>>, <<92,120,48,48>> >>)
GenLit(s) == FlattenS([j \in 1..Pick(s, 6) |-> Piece(Mix(s, j))])

LitPool(s) == [j \in 1..4 |-> GenLit(Mix(s, 100 + j))]
Cx(s) == [ops |-> CoreOps \o EqOps \o IteOps \o StrOps \o ReOps \o ModernConv \o LegacyConv \o LegacyConv
                   \o (IF Chance(Mix(s, 71), 50) THEN ArithOps \o IntEq ELSE IntEq),
          vS |-> <<"x", "y">>, vI |-> <<"n">>, vB |-> <<"p">>, vR |-> <<"re.all", "re.nostr", "re.none", "re.allchar", "re.nostr">>,
          lits |-> LitPool(s), chars |-> <<97, 122, 48>>, nums |-> <<0, 1, 2, 12, 7>>, leafp |-> 25,
          lets |-> IF Chance(Mix(s, 72), 30) THEN 12 ELSE 0]
RndCmd(s) ==
    LET cx == Cx(s)
        r == Pick(s, 22)
    IN  CASE r \in 0..9 -> App("assert", <<GenT(Mix(s,1), 1 + Pick(Mix(s,3), 4), "B", cx)>>)
          [] r = 10 -> App("set-info", <<Sym(":source"), Str(GenLit(Mix(s,2)))>>)
          [] r = 11 -> App("set-option", <<Sym(":produce-models"), Sym("true")>>)
          [] r = 12 -> App("define-fun", <<Sym("f" \o ToString(Pick(Mix(s,4), 100))), Ls(<<Ls(<<Sym("x"), Sym("String")>>)>>), Sym("String"),
                         GenT(Mix(s,1), 2, "S", cx)>>)
          [] r = 13 -> App("get-value", <<Ls(<<GenT(Mix(s,1), 2, "S", cx), GenT(Mix(s,5), 2, "R", cx)>>)>>)
          [] r = 14 -> App("push", <<Num(1)>>)
          [] r = 15 -> App("pop", <<Num(1)>>)
          [] r = 16 -> App("check-sat-assuming", <<Ls(<<Sym("p"), App("not", <<Sym("p")>>)>>)>>)
          [] r = 17 -> App("echo", <<Str(GenLit(Mix(s,2)))>>)
          [] r = 18 -> App("declare-fun", <<Sym("g" \o ToString(Pick(Mix(s,4), 100))), Ls(<<Sym("String"), Sym("Int")>>), Sym("Bool")>>)
          [] r = 19 -> App("check-sat", <<>>)
          [] r = 20 -> App("assert", <<Ls(<<Sym("forall"), Ls(<<Ls(<<Sym("x"), Sym("String")>>), Ls(<<Sym("n"), Sym("Int")>>)>>),
                          GenT(Mix(s,1), 3, "B", cx)>>)>>)
          [] r = 21 -> App("set-logic", <<Sym("QF_S")>>)
Decls == << App("declare-const", <<Sym("x"), Sym("String")>>), App("declare-fun", <<Sym("y"), Ls(<<>>), Sym("String")>>),
            App("declare-const", <<Sym("n"), Sym("Int")>>), App("declare-const", <<Sym("p"), Sym("Bool")>>) >>
Sd(c) == Seed0(S0, c)
MaxLen(c) == 1 + Pick(Mix(Sd(c), 999), 8)

Init == /\ k = 0
        /\ \/ Mode = "lits" /\ id = 0 /\ cmds = <<>>
           \/ Mode = "kinds" /\ id = 0 /\ cmds = <<>>
           \/ Mode = "rnd" /\ id \in 1..N /\ cmds = IF Chance(Mix(Sd(id), 5), 70) THEN Decls ELSE
                                                     <<App("set-option", <<Sym(":produce-models"), Sym("true")>>)>> \o Decls

Emit(c) == PrintT(ToJson(c))
\* one character appended to the literal
AddChar == /\ Mode = "lits" /\ k < N
           /\ \E j \in 1..Len(Alpha) : cmds' = Append(cmds, Alpha[j])
           /\ k' = k + 1 /\ UNCHANGED id
           /\ Emit([l |-> cmds'])
\* one command appended
AddKind == /\ Mode = "kinds" /\ k < N
           /\ \E j \in 1..NKinds : cmds' = Append(cmds, KindCmd(j, k))
           /\ k' = k + 1 /\ UNCHANGED id
           /\ Emit([in |-> cmds'])
AddCmd  == /\ Mode = "rnd" /\ k < MaxLen(id)
           /\ cmds' = Append(cmds, RndCmd(Mix(Sd(id), 1000 + k)))
           /\ k' = k + 1 /\ UNCHANGED id
           /\ (k' = MaxLen(id) => Emit([in |-> cmds', id |-> id]))
Next == AddChar \/ AddKind \/ AddCmd
Spec == Init /\ [][Next]_<<id, cmds, k>>
=============================================================================
