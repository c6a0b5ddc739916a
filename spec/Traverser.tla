------------------------------ MODULE Traverser -----------------------------
(***************************************************************************)
(* A walk over a graph of operations from a sequence of wanted values.     *)
(*                                                                         *)
(* The graph is arbitrary: operation o has nout[o] outputs and consumes    *)
(* the values ins[o], a sequence of <<operation, output index>>.  Nothing  *)
(* forbids cycles.  The walk visits any operation that is needed, was not  *)
(* visited before and whose inputs are all available; which of them comes  *)
(* first is left open.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of operations
          MaxIn,    \* inputs per operation
          MaxOut,   \* outputs per operation
          MaxRoots, \* wanted values
          Graphs    \* number of graphs to draw at random; 0: all of them

VARIABLES ins, nout, roots, visited

vars == <<ins, nout, roots, visited>>

Ops == 1..N
Refs == Ops \X (1..MaxOut)
InSeqs == UNION {[1..k -> Refs] : k \in 0..MaxIn}
RootSeqs == UNION {[1..k -> Refs] : k \in 1..MaxRoots}

WellFormed(i, n, r) ==
  /\ \A o \in Ops : \A k \in DOMAIN i[o] : i[o][k][2] <= n[i[o][k][1]]
  /\ \A k \in DOMAIN r : r[k][2] <= n[r[k][1]]

Fix(ref, n) == <<ref[1], IF ref[2] > n[ref[1]] THEN 1 ELSE ref[2]>>

Init ==
  /\ visited = <<>>
  /\ IF Graphs = 0
     THEN /\ nout \in [Ops -> 1..MaxOut]
          /\ ins \in [Ops -> InSeqs]
          /\ roots \in RootSeqs
          /\ WellFormed(ins, nout, roots)
     ELSE \E k \in 1..Graphs :
          /\ nout = [o \in Ops |-> RandomElement(1..MaxOut)]
          \* bias towards acyclic graphs: half of them only look backwards
          /\ LET back == k % 3 # 0
                 low(o) == IF back THEN o - 1 ELSE N
                 pick(o) == IF low(o) = 0 THEN <<>> ELSE
                    LET len == RandomElement(0..MaxIn) IN
                    [j \in 1..len |-> Fix(<<RandomElement(1..low(o)),
                                            RandomElement(1..MaxOut)>>, nout)]
             IN ins = [o \in Ops |-> pick(o)]
          /\ LET len == RandomElement(1..MaxRoots) IN
             roots = [j \in 1..len |-> Fix(<<RandomElement(Ops),
                                             RandomElement(1..MaxOut)>>, nout)]

Range(s) == {s[k] : k \in DOMAIN s}
Deps(o) == {ins[o][k][1] : k \in DOMAIN ins[o]}

\* the operations needed for the wanted values (least fixed point)
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {Deps(o) : o \in S} IN IF T = S THEN S ELSE Close(T)
Needed == Close({r[1] : r \in Range(roots)})

\* an operation on a cycle can reach itself
Cyclic == \E o \in Needed : o \in Close(Deps(o))

Visit(o) ==
  /\ o \in Needed
  /\ o \notin Range(visited)
  /\ Deps(o) \subseteq Range(visited)
  /\ visited' = Append(visited, o)
  /\ UNCHANGED <<ins, nout, roots>>

Next == \E o \in Ops : Visit(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stuck == ~ ENABLED Next

(* ------------------------------ properties ------------------------------ *)
OnceEach == Cardinality(Range(visited)) = Len(visited)
OnlyNeeded == Range(visited) \subseteq Needed
InputsFirst ==
  \A k \in DOMAIN visited : \A d \in Deps(visited[k]) :
     \E j \in 1..(k - 1) : visited[j] = d
\* The walk completes exactly on the graphs without a cycle in reach.
CompleteIffAcyclic == Stuck => ((Range(visited) = Needed) <=> ~Cyclic)

View == <<ins, nout, roots, Range(visited)>>
Emit == Stuck => PrintT("@@" \o ToJson(
   [ins |-> ins, nout |-> nout, roots |-> roots, cyclic |-> Cyclic,
    needed |-> Needed, some |-> visited]))
=============================================================================
