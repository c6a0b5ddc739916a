------------------------------ MODULE Scaling ------------------------------
(***************************************************************************)
(* Scaling by analysed statistics.                                         *)
(*                                                                         *)
(* An instance has a row key and cells, each with a value and a key of its *)
(* own.  Workers read instances in any order into accumulators (count,     *)
(* sum, sum of squares, minimum and maximum) per group of cells, the       *)
(* accumulators are merged, and values are scaled with the result.  NA is  *)
(* a value that analysis ignores.  Results are exact: fractions <<n, d>>   *)
(* for min-max, and n / sqrt(r) as <<n, r>> for z-scores.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Data,     \* set of sequences of instances [k, c]; c: sequence of [v, k]
          Groups,   \* sequence of [row, cell, pos]; 0 stands for any
          Grid,     \* sequence of values asked for
          Ranges,   \* set of <<lo, hi>>
          NW,       \* number of workers
          Sim

NA == 777
VARIABLES data, range, todo, acc, phase
vars == <<data, range, todo, acc, phase>>

Hit(g, i, p) == /\ g.row \in {0, i.k} /\ g.cell \in {0, i.c[p].k} /\ g.pos \in {0, p}
Empty == [n |-> 0, sum |-> 0, sq |-> 0, min |-> NA, max |-> NA]
Min2(a, b) == IF a = NA THEN b ELSE IF b = NA THEN a ELSE IF a < b THEN a ELSE b
Max2(a, b) == IF a = NA THEN b ELSE IF b = NA THEN a ELSE IF a > b THEN a ELSE b
Merge(a, b) == [n |-> a.n + b.n, sum |-> a.sum + b.sum, sq |-> a.sq + b.sq,
                min |-> Min2(a.min, b.min), max |-> Max2(a.max, b.max)]
One(v) == [n |-> 1, sum |-> v, sq |-> v * v, min |-> v, max |-> v]
RECURSIVE Read(_, _, _, _)
Read(g, i, p, a) ==
  IF p > Len(i.c) THEN a
  ELSE Read(g, i, p + 1, IF Hit(g, i, p) /\ i.c[p].v # NA THEN Merge(a, One(i.c[p].v)) ELSE a)

(* ------------------------------ definition ------------------------------ *)
Cells(g) == {<<j, p>> \in (1..Len(data)) \X (1..6) :
             p \in DOMAIN data[j].c /\ Hit(g, data[j], p) /\ data[j].c[p].v # NA}
At(x) == data[x[1]].c[x[2]].v
RECURSIVE SumOf(_, _)
SumOf(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOf(f, S \ {x})
Defined(g) == LET S == Cells(g)  V == {At(x) : x \in S} IN
  IF S = {} THEN Empty
  ELSE [n |-> Cardinality(S), sum |-> SumOf(At, S), sq |-> SumOf(LAMBDA x : At(x) * At(x), S),
        min |-> CHOOSE v \in V : \A w \in V : v <= w, max |-> CHOOSE v \in V : \A w \in V : v >= w]

(* -------------------------------- scaling ------------------------------- *)
\* <<n, d>>: n / d of the way through the range; d = 0: through a sigmoid
Through(s, x) == IF s.n > 0 /\ s.min < s.max THEN <<x - s.min, s.max - s.min>> ELSE <<x, 0>>
MinMax(s, x) == LET t == Through(s, x) IN
  IF t[2] = 0 THEN t ELSE <<range[1] * t[2] + (range[2] - range[1]) * t[1], t[2]>>
\* n / sqrt(r); r = 0: n over the count
Radicand(s) == s.n * s.sq - s.sum * s.sum
ZScore(s, x) == IF s.n = 0 THEN <<x, 0, 1>> ELSE <<s.n * x - s.sum, Radicand(s), s.n>>

(* ------------------------------ the process ----------------------------- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Zero == [w \in 1..NW |-> [g \in DOMAIN Groups |-> Empty]]
Init == data = <<>> /\ range = <<0, 1>> /\ todo = {} /\ acc = Zero /\ phase = "data"
ChooseData == /\ phase = "data" /\ \E d \in Data : data' = d /\ todo' = DOMAIN d
              /\ \E r \in Pick(Ranges) : range' = r
              /\ phase' = "read" /\ UNCHANGED acc
Take == /\ phase = "read" /\ todo # {}
        /\ \E j \in Pick(todo), w \in Pick(1..NW) :
             /\ todo' = todo \ {j}
             /\ acc' = [acc EXCEPT ![w] = [g \in DOMAIN Groups |-> Read(Groups[g], data[j], 1, acc[w][g])]]
        /\ UNCHANGED <<data, range, phase>>
Combine == /\ phase = "read" /\ todo = {}
           /\ \E a, b \in DOMAIN acc : /\ a < b
                /\ acc' = [w \in 1..Len(acc) - 1 |->
                     LET o == IF w < b THEN w ELSE w + 1 IN
                     [g \in DOMAIN Groups |-> IF o = a THEN Merge(acc[a][g], acc[b][g]) ELSE acc[o][g]]]
           /\ UNCHANGED <<data, range, todo, phase>>
Finish == /\ phase = "read" /\ todo = {} /\ Len(acc) = 1 /\ phase' = "done"
          /\ UNCHANGED <<data, range, todo, acc>>
Next == ChooseData \/ Take \/ Combine \/ Finish

(* ------------------------------ properties ------------------------------ *)
Done == phase = "done"
Stats == acc[1]
Correct == Done => \A g \in DOMAIN Groups : Stats[g] = Defined(Groups[g])
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
\* analysed values land in the range, its ends are reached, order is kept
InRange == Done => \A g \in DOMAIN Groups : \A x \in Cells(Groups[g]) :
  LET m == MinMax(Stats[g], At(x)) IN m[2] > 0 => Le(<<range[1], 1>>, m) /\ Le(m, <<range[2], 1>>)
Ends == Done => \A g \in DOMAIN Groups : LET s == Stats[g] IN s.n > 0 /\ s.min < s.max =>
  /\ MinMax(s, s.min)[1] = range[1] * MinMax(s, s.min)[2]
  /\ MinMax(s, s.max)[1] = range[2] * MinMax(s, s.max)[2]
Asked == {Grid[i] : i \in DOMAIN Grid} \ {NA}
Monotone == Done => \A g \in DOMAIN Groups : \A x, y \in Asked : x <= y =>
  /\ MinMax(Stats[g], x)[2] > 0 => Le(MinMax(Stats[g], x), MinMax(Stats[g], y))
  /\ ZScore(Stats[g], x)[1] <= ZScore(Stats[g], y)[1]
\* the scores of the analysed values have mean 0 and variance 1
Standard == Done => \A g \in DOMAIN Groups : LET s == Stats[g]  S == Cells(Groups[g]) IN
  /\ SumOf(LAMBDA x : ZScore(s, At(x))[1], S) = 0
  /\ s.n > 0 => SumOf(LAMBDA x : ZScore(s, At(x))[1] * ZScore(s, At(x))[1], S) = s.n * Radicand(s)
  /\ Radicand(s) >= 0 /\ (s.n > 0 => (Radicand(s) = 0 <=> s.min = s.max))

Emit == Done => PrintT("@@" \o ToJson(
  [data |-> data, range |-> range,
   groups |-> [g \in DOMAIN Groups |->
     [n |-> Stats[g].n, sum |-> Stats[g].sum, min |-> Stats[g].min, max |-> Stats[g].max,
      mm |-> [i \in DOMAIN Grid |-> IF Grid[i] = NA THEN <<0, 0>> ELSE MinMax(Stats[g], Grid[i])],
      z |-> [i \in DOMAIN Grid |-> IF Grid[i] = NA THEN <<0, 0, 1>> ELSE ZScore(Stats[g], Grid[i])]]]]))
=============================================================================
