------------------------------ MODULE DeepCopy ------------------------------
(***************************************************************************)
(* Copies of a computation.                                                *)
(*                                                                         *)
(* A pipeline is a graph of steps; a step has one output or several.  The  *)
(* copy of a collection repeats the steps that lead to it, each once, back *)
(* to the nearest grouping or root; side inputs are read where they are.   *)
(* Steps are copied one by one, any step once its inputs are there.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxNodes, MaxCopies, Kinds, Sim

VARIABLES g,       \* steps: kind, inputs as <<step, output>>, side inputs, name, what it is a copy of
          base,    \* the graph before the copies
          copies,  \* per copy: what was copied, and the copy
          todo, map, target, pc
vars == <<g, base, copies, todo, map, target, pc>>

Draw(S) == RandomElement(S)
Outputs(kind) == IF kind = "multi" THEN {0, 1} ELSE {0}
Ports(gr) == {<<i, o>> : i \in DOMAIN gr, o \in {0, 1}} \ {<<i, 1>> : i \in {j \in DOMAIN gr : gr[j].kind # "multi"}}
Step(kind, ins, sides, name) == [kind |-> kind, ins |-> ins, sides |-> sides, name |-> name, of |-> 0]

(* ------------------------------ data ------------------------------------ *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Sort(s) == SortSeq(s, <)
Each(s, F(_)) == [k \in DOMAIN s |-> F(s[k])]
\* the elements of an output, sorted; the function of a step is its origin's
RECURSIVE Root(_, _)
Root(gr, i) == IF gr[i].of = 0 THEN i ELSE Root(gr, gr[i].of)
RECURSIVE Data(_, _)
Data(gr, p) ==
  LET e == gr[p[1]] k == Root(gr, p[1])
      x == IF e.ins = <<>> THEN <<>> ELSE Data(gr, e.ins[1])
  IN
  CASE e.kind = "create" -> [j \in 1..(2 + (k % 3)) |-> 10 * k + j]
    [] e.kind = "map" -> Sort(Each(x, LAMBDA v : (7 * v + k) % 97))
    [] e.kind = "multi" -> IF p[2] = 0 THEN Sort(Each(x, LAMBDA v : (v + k) % 89))
                           ELSE Sort(Each(SelectSeq(x, LAMBDA v : v % 2 = 0), LAMBDA v : 3 * v + k))
    [] e.kind = "flatten" -> Sort(Concat([j \in DOMAIN e.ins |-> Data(gr, e.ins[j])]))
    [] e.kind = "side" -> LET s == Sum(Data(gr, e.sides[1])) IN Sort(Each(x, LAMBDA v : (v + 2 * s + k) % 101))
    [] e.kind \in {"gbk", "combine"} ->
         LET keys == SetToSortSeq({v % 3 : v \in {x[j] : j \in DOMAIN x}}, <)
         IN Sort(Each(keys, LAMBDA c : (Sum(SelectSeq(x, LAMBDA v : v % 3 = c)) + c) % 103))

(* ------------------------------ copying --------------------------------- *)
Barrier(kind) == kind \in {"gbk", "combine"}
\* the steps to repeat; of a grouping only what comes after it, which reads what it grouped
RECURSIVE Closure(_, _)
Closure(gr, S) ==
  LET more == {gr[i].ins[j][1] : <<i, j>> \in {x \in S \X (1..3) : x[2] \in DOMAIN gr[x[1]].ins /\ ~ Barrier(gr[x[1]].kind)}}
  IN IF more \subseteq S THEN S ELSE Closure(gr, S \cup more)
Names(gr) == {gr[i].name : i \in DOMAIN gr}
FreshName(gr, n) == n \o ".Copy" \o ToString(CHOOSE k \in 0..Len(gr) :
    /\ n \o ".Copy" \o ToString(k) \notin Names(gr)
    /\ \A j \in 0..(k - 1) : n \o ".Copy" \o ToString(j) \in Names(gr))

NodeName(i) == "n" \o ToString(i)
NewStep(kind, gr, P) ==
  IF kind = "create" THEN {Step("create", <<>>, <<>>, NodeName(Len(gr) + 1))}
  ELSE IF kind = "flatten" THEN {Step("flatten", <<x[1], x[2]>>, <<>>, NodeName(Len(gr) + 1)) : x \in {y \in P \X P : y[1] # y[2]}}
  ELSE IF kind = "side" THEN {Step("side", <<a>>, <<b>>, NodeName(Len(gr) + 1)) : a \in P, b \in P}
  ELSE {Step(kind, <<a>>, <<>>, NodeName(Len(gr) + 1)) : a \in P}

Init == g = <<>> /\ base = <<>> /\ copies = <<>> /\ todo = {} /\ map = <<>> /\ target = <<0, 0>> /\ pc = "build"
Build == /\ pc = "build" /\ Len(g) < MaxNodes
         /\ LET P == Ports(g)
                can == IF Cardinality(P) < 2 THEN Kinds \ {"flatten"} ELSE Kinds
                ks == IF P = {} THEN {"create"} ELSE IF Sim /\ Draw(1..4) # 1 THEN can \ {"create"} ELSE can
            IN IF Sim THEN LET near == {p \in P : p[1] > Len(g) - 2} IN
                 g' = Append(g, Draw(NewStep(Draw(ks), g, IF Draw(1..2) = 1 /\ Cardinality(near) > 1 THEN near ELSE P)))
               ELSE \E k \in ks : \E s \in NewStep(k, g, P) : g' = Append(g, s)
         /\ UNCHANGED <<base, copies, todo, map, target, pc>>
Choose == /\ pc = "build" /\ Len(g) = MaxNodes
          /\ pc' = "pick" /\ base' = g
          /\ UNCHANGED <<g, copies, todo, map, target>>
\* anything may be copied, also what is a copy
Pick == /\ pc = "pick" /\ Len(copies) < MaxCopies
        /\ \E t \in (IF Sim THEN {IF Draw(1..2) = 1 THEN Draw({p \in Ports(g) : p[1] \in {Len(g), Len(base)}}) ELSE Draw(Ports(g))}
                     ELSE Ports(g)) :
             target' = t /\ todo' = Closure(g, {t[1]})
        /\ map' = <<>> /\ pc' = "copy"
        /\ UNCHANGED <<g, base, copies>>
InputOf(p) == IF p[1] \in DOMAIN map THEN <<map[p[1]], p[2]>> ELSE p
Clone == /\ pc = "copy" /\ todo # {}
         /\ LET ready == {i \in todo : Barrier(g[i].kind) \/ \A j \in DOMAIN g[i].ins : g[i].ins[j][1] \notin todo}
            IN \E i \in (IF Sim THEN {Draw(ready)} ELSE ready) :
               /\ g' = Append(g, [g[i] EXCEPT !.ins = IF Barrier(g[i].kind) THEN @ ELSE [j \in DOMAIN @ |-> InputOf(@[j])],
                                            !.name = FreshName(g, @), !.of = i])
               /\ map' = map @@ (i :> Len(g) + 1)
               /\ todo' = todo \ {i}
         /\ UNCHANGED <<base, copies, target, pc>>
Done == /\ pc = "copy" /\ todo = {}
        /\ copies' = Append(copies, [target |-> target, copy |-> <<map[target[1]], target[2]>>, steps |-> DOMAIN map, map |-> map])
        /\ pc' = "pick" /\ map' = <<>>
        /\ UNCHANGED <<g, base, todo, target>>
Next == Build \/ Choose \/ Pick \/ Clone \/ Done

(* ------------------------------ properties ------------------------------ *)
SameData == \A k \in DOMAIN copies : Data(g, copies[k].copy) = Data(g, copies[k].target)
\* upstream of the copy, up to the groupings, everything is new, once for each step
Upstream(p) == Closure(g, {p[1]})
Repeats == \A k \in DOMAIN copies : LET c == copies[k] IN
  /\ {g[i].of : i \in Upstream(c.copy)} = c.steps
  /\ Cardinality(Upstream(c.copy)) = Cardinality(c.steps)
  /\ c.steps = Upstream(c.target)
\* what two steps share, their copies share; groupings and side inputs are those of the original
Shares == \A k \in DOMAIN copies : LET c == copies[k] IN \A i \in c.steps :
  /\ g[c.map[i]].sides = g[i].sides
  /\ \A j \in DOMAIN g[i].ins : LET p == g[i].ins[j] q == g[c.map[i]].ins[j] IN
       IF Barrier(g[i].kind) THEN q = p ELSE q = <<c.map[p[1]], p[2]>>
Intact == pc # "build" => SubSeq(g, 1, Len(base)) = base
DistinctNames == Cardinality(Names(g)) = Len(g)

Emit == (pc = "pick" /\ Len(copies) = MaxCopies) => PrintT("@@" \o ToJson(
  [nodes |-> [i \in DOMAIN base |-> [kind |-> base[i].kind, ins |-> base[i].ins, sides |-> base[i].sides,
                data |-> [o \in 1..Cardinality(Outputs(base[i].kind)) |-> Data(g, <<i, o - 1>>)]]],
   copies |-> [k \in DOMAIN copies |-> LET c == copies[k] IN
      [target |-> c.target, copy |-> c.copy,
       steps |-> SetToSortSeq({<<i, c.map[i]>> : i \in c.steps}, LAMBDA a, b : a[1] < b[1]),
       names |-> SetToSeq({<<g[i].name, g[c.map[i]].name>> : i \in c.steps})]]]))
=============================================================================
