----------------------------- MODULE CallGraph -----------------------------
(* The call graph.  State: nodes (in order of creation), child relation,       *)
(* whether information was propagated.  Actions: add a constraint variable or  *)
(* a call, add an edge, add siblings, propagate.  After a propagation every     *)
(* node knows exactly what it is built from and used to build (what it reaches *)
(* through children / parents without going through a Bool function), and the   *)
(* nodes are partitioned by what is used together; a node that is built from   *)
(* itself is an error.  Nothing depends on the order of the actions.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad, nodes, kids, done
vars == <<c, l, bad, nodes, kids, done>>
Ev == Cases[c].ev
Set(q) == {q[i] : i \in DOMAIN q}
\* ------------------------------------------------------------------ functions
BoolFcts == {"str.contains", "distinct", "str.in_re", "str.is_digit", "str.<", "str.prefixof", "str.<=", "=", "str.suffixof"}
IsBool(f) == f \in BoolFcts
\* the arguments a function keeps: one literal to be contained, the ends of a range (literals sorted)
Pair(n) == <<n.f, IF n.f = "str.contains" /\ Len(n.lits0) = 1 THEN n.lits0
                  ELSE IF n.f = "re.range" /\ Len(n.lits0) = 2 THEN n.lits0 ELSE <<>>>>
\* ------------------------------------------------------------------ reachability
Names(N) == {N[i].n : i \in 1..Len(N)}
Node(N, x) == CHOOSE m \in Set(N) : m.n = x
Kids(K, x) == {e[2] : e \in {d \in K : d[1] = x}}
Pars(K, x) == {e[1] : e \in {d \in K : d[2] = x}}
RECURSIVE Close(_,_,_)
Close(N, Rel, S) ==
    LET T == S \cup UNION {Rel[x] : x \in {y \in S : ~IsBool(Node(N, y).f)}}
    IN IF T = S THEN S ELSE Close(N, Rel, T)
Down(N, K) == LET R == [x \in Names(N) |-> Kids(K, x)] IN TLCEval([x \in Names(N) |-> Close(N, R, R[x])])
Up(N, K) == LET R == [x \in Names(N) |-> Pars(K, x)] IN TLCEval([x \in Names(N) |-> Close(N, R, R[x])])
Cyclic(D) == \E x \in DOMAIN D : x \in D[x]
\* ------------------------------------------------------------------ what is used together
\* the parents (transitively) of something that is not Bool, and all they are built from
Links(N, D, U) == {U[x] \cup UNION {D[u] : u \in U[x]} : x \in {y \in Names(N) : ~IsBool(Node(N, y).f) /\ U[y] # {}}}
RECURSIVE Grow(_,_)
Grow(L, S) == LET T == S \cup UNION {x \in L : x \cap S # {}} IN IF T = S THEN S ELSE Grow(L, T)
\* ------------------------------------------------------------------ node sets
Fcts(N, S) == {Pair(Node(N, x)) : x \in S}
Lits(N, S) == UNION {Node(N, x).lits : x \in S}
Along(N, x, S) == [vars |-> S, fcts |-> Fcts(N, S \cup {x}), lits |-> Lits(N, {x} \cup {y \in S : ~IsBool(Node(N, y).f)})]
Together(N, S) == [vars |-> S, fcts |-> Fcts(N, S), lits |-> Lits(N, S)]
Seen(o) == [vars |-> Set(o.vars), fcts |-> Set(o.fcts), lits |-> Set(o.lits)]
Dup(o) == Cardinality(Set(o.fcts)) # Len(o.fcts)
Observed(N, K, o) ==
    LET D == Down(N, K)
        U == Up(N, K)
        L == TLCEval(Links(N, D, U))
        C == TLCEval([x \in Names(N) |-> Grow(L, {x})])
        cvs == {x \in Names(N) : Node(N, x).cv}
        Bad(x, m) ==
            IF m.f # Pair(Node(N, x)) \/ Set(m.lits) # Node(N, x).lits THEN "the node itself"
            ELSE IF Seen(m.bf) # Along(N, x, D[x]) THEN "what it is built from"
            ELSE IF Seen(m.utb) # Along(N, x, U[x]) THEN "what it is used to build"
            ELSE IF Seen(m.uw) # Together(N, C[x]) THEN "what it is used with"
            ELSE IF Set(m.cv) # C[x] \cap cvs \/ Len(m.cv) # Cardinality(C[x] \cap cvs) THEN "the constraint variables it is in a partition with"
            ELSE ""
        wrong == {i \in 1..Len(N) : Bad(N[i].n, o.nodes[i]) # ""}
    IN IF wrong # {} THEN LET i == CHOOSE j \in wrong : TRUE IN "node " \o N[i].n \o ": " \o Bad(N[i].n, o.nodes[i]) \o " is wrong"
       ELSE IF {Seen(o.parts[i]) : i \in 1..Len(o.parts)} # {Together(N, C[x]) : x \in Names(N)} THEN "the partitions are not the sets of nodes used together"
       ELSE IF Cardinality({C[x] : x \in Names(N)}) # Len(o.parts) THEN "a partition is listed twice"
       ELSE ""

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ nodes = <<>> /\ kids = {} /\ done = FALSE
Add(e) == /\ e.op \in {"cvar", "call"}
          /\ bad' = IF e.r = Len(nodes) THEN "" ELSE "the new node has not the next number"
          /\ nodes' = Append(nodes, [n |-> e.n, f |-> e.f, lits |-> Set(e.lits), lits0 |-> e.lits, cv |-> e.op = "cvar"])
          /\ UNCHANGED <<kids, done>>
Edge(e) == /\ e.op = "edge"
           /\ IF {e.p, e.c} \subseteq Names(nodes)
              THEN kids' = kids \cup {<<e.p, e.c>>} /\ bad' = IF e.r = "ok" THEN "" ELSE "an edge is refused"
              ELSE kids' = kids /\ bad' = IF e.r = "InvalidNode" THEN "" ELSE "an edge of an unknown node is accepted"
           /\ UNCHANGED <<nodes, done>>
Sib(e) == /\ e.op = "sib"
          /\ IF Set(e.s) \subseteq Names(nodes)
             THEN /\ nodes' = [i \in 1..Len(nodes) |-> IF nodes[i].n \in Set(e.s) THEN [nodes[i] EXCEPT !.lits = @ \cup Set(e.lits)] ELSE nodes[i]]
                  /\ bad' = IF e.r = "ok" THEN "" ELSE "siblings are refused"
             ELSE nodes' = nodes /\ bad' = IF e.r = "InvalidNode" THEN "" ELSE "an unknown sibling is accepted"
          /\ UNCHANGED <<kids, done>>
Propagate(e) ==
    /\ e.op = "propagate"
    /\ IF Cyclic(Down(nodes, kids))
       THEN done' = FALSE /\ bad' = IF e.r = "CycleDetected" THEN "" ELSE "a cycle is not reported"
       ELSE done' = TRUE /\ bad' = IF e.r = "ok" THEN "" ELSE "a graph without cycle is refused"
    /\ UNCHANGED <<nodes, kids>>
Look(e) ==
    /\ e.op = "look"
    /\ bad' = IF e.r # "ok" THEN "no result: " \o e.r ELSE IF done THEN Observed(nodes, kids, e) ELSE ""
    /\ UNCHANGED <<nodes, kids, done>>
Step == /\ l \in 1..Len(Ev) /\ bad = ""
        /\ LET e == Ev[l] IN Add(e) \/ Edge(e) \/ Sib(e) \/ Propagate(e) \/ Look(e)
        /\ l' = IF bad' = "" THEN l + 1 ELSE l
        /\ UNCHANGED c
Done == /\ (l = Len(Ev) + 1 \/ bad # "") /\ l # 0
        /\ PrintT(ToJson([id |-> Cases[c].id, bad |-> bad, at |-> l, acyclic |-> done]))
        /\ l' = 0 /\ UNCHANGED <<c, bad, nodes, kids, done>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
