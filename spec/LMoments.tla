------------------------------ MODULE LMoments ------------------------------
(***************************************************************************)
(* Sample L-moments of batches, and what becomes of them.                  *)
(*                                                                         *)
(* Workers take batches of rows (pairs of values, NA is a missing one) in  *)
(* any order.  Every batch adds, for each target (which columns, and       *)
(* whether only complete rows count), the number C[r] of its subsets of    *)
(* size r = 1..4 and N[r], r times the sum over these subsets of their     *)
(* r-th L-moment.  The analysed L-moment is N[r] / (r C[r]) of all batches *)
(* together: subsets never cross batches.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Given,    \* the sequences of rows a batch may have
          Sets,     \* or, in a simulation: sets of values
          Sizes,    \* and sizes of batches
          NB,       \* number of batches
          NW,       \* number of workers
          Sim

NA == 777
Targets == <<[cols |-> {1, 2}, whole |-> FALSE], [cols |-> {1}, whole |-> FALSE], [cols |-> {2}, whole |-> FALSE],
             [cols |-> {1, 2}, whole |-> TRUE], [cols |-> {1}, whole |-> TRUE], [cols |-> {2}, whole |-> TRUE]>>
VARIABLES batches, todo, acc, ops, phase
vars == <<batches, todo, acc, ops, phase>>

(* ------------------------- values and their parts ----------------------- *)
RECURSIVE Values(_, _, _)
Values(t, rows, i) ==
  IF i > Len(rows) THEN <<>> ELSE
  LET r == rows[i]
      take(c) == IF c \in t.cols /\ r[c] # NA THEN <<r[c]>> ELSE <<>>
  IN  (IF t.whole /\ NA \in {r[1], r[2]} THEN <<>> ELSE take(1) \o take(2)) \o Values(t, rows, i + 1)
RECURSIVE Insert(_, _)
Insert(s, v) == IF s = <<>> THEN <<v>> ELSE IF v <= Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), v)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))
\* binomial coefficients
B(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2
             [] k = 3 -> (n * (n - 1) * (n - 2)) \div 6 [] k = 4 -> (n * (n - 1) * (n - 2) * (n - 3)) \div 24
\* how often the i-th of n sorted values counts
Factor(r, i, n) ==
  LET u == i - 1  d == n - i IN
  CASE r = 1 -> 1 [] r = 2 -> u - d [] r = 3 -> B(u, 2) - 2 * u * d + B(d, 2)
    [] r = 4 -> B(u, 3) - 3 * B(u, 2) * d + 3 * u * B(d, 2) - B(d, 3)
RECURSIVE Weighted(_, _, _)
Weighted(r, s, i) == IF i > Len(s) THEN 0 ELSE Factor(r, i, Len(s)) * s[i] + Weighted(r, s, i + 1)
Part(v) == LET s == Sorted(v) IN
  [c |-> [r \in 1..4 |-> B(Len(s), r)], n |-> [r \in 1..4 |-> Weighted(r, s, 1)]]
PartsOf(rows) == [t \in DOMAIN Targets |-> Part(Values(Targets[t], rows, 1))]
None == [c |-> [r \in 1..4 |-> 0], n |-> [r \in 1..4 |-> 0]]
Plus(a, b) == [c |-> [r \in 1..4 |-> a.c[r] + b.c[r]], n |-> [r \in 1..4 |-> a.n[r] + b.n[r]]]
PlusAll(a, b) == [t \in DOMAIN Targets |-> Plus(a[t], b[t])]

(* ------------------------------ definition ------------------------------ *)
Coef(r) == CASE r = 1 -> <<1>> [] r = 2 -> <<-1, 1>> [] r = 3 -> <<1, -2, 1>> [] r = 4 -> <<-1, 3, -3, 1>>
RECURSIVE Dot(_, _, _)
Dot(c, s, i) == IF i > Len(c) THEN 0 ELSE c[i] * s[i] + Dot(c, s, i + 1)
RECURSIVE OfSubsets(_, _, _, _)
\* sum over the subsets of size r of the sorted values from i on, given those chosen
OfSubsets(r, s, i, got) ==
  IF Len(got) = r THEN Dot(Coef(r), got, 1)
  ELSE IF i > Len(s) THEN 0
  ELSE OfSubsets(r, s, i + 1, Append(got, s[i])) + OfSubsets(r, s, i + 1, got)

(* ------------------------------ the process ----------------------------- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* the guard keeps TLC from drawing only once
NewBatch == LET unused == Len(batches) < 0
                n == RandomElement(IF unused THEN {} ELSE Sizes)
                holes == RandomElement(IF unused THEN {} ELSE {0, 0, 1})
                s == RandomElement(IF unused THEN {} ELSE Sets)
                v(i) == IF holes = 1 /\ RandomElement(IF i < 0 THEN {} ELSE 1..4) = 1 THEN NA
                        ELSE RandomElement(IF i < 0 THEN {} ELSE s)
            IN  [i \in 1..n |-> <<v(i), v(i)>>]
Zero == [w \in 1..NW |-> [t \in DOMAIN Targets |-> None]]
Init == batches = <<>> /\ todo = {} /\ acc = Zero /\ ops = <<>> /\ phase = "data"
Draw == /\ phase = "data" /\ Len(batches) < NB
        /\ \E b \in (IF Sim THEN {NewBatch} ELSE Given) : batches' = Append(batches, b)
        /\ UNCHANGED <<todo, acc, ops, phase>>
Start == /\ phase = "data" /\ Len(batches) = NB
         /\ phase' = "read" /\ todo' = DOMAIN batches /\ UNCHANGED <<batches, acc, ops>>
Take == /\ phase = "read" /\ todo # {}
        /\ \E j \in Pick(todo), w \in Pick(1..NW) :
             /\ todo' = todo \ {j}
             /\ acc' = [acc EXCEPT ![w] = PlusAll(@, PartsOf(batches[j]))]
             /\ ops' = Append(ops, [op |-> "add", a |-> w, b |-> j])
        /\ UNCHANGED <<batches, phase>>
\* accumulators w and the next are replaced by the merged one
Merge == /\ phase = "read" /\ todo = {}
         /\ \E p \in Pick({<<a, b>> \in (DOMAIN acc) \X (DOMAIN acc) : a # b}) :
              LET a == p[1]  b == p[2] IN
              /\ acc' = LET m == [acc EXCEPT ![a] = PlusAll(acc[a], acc[b])] IN
                   [w \in 1..Len(acc) - 1 |-> IF w < b THEN m[w] ELSE m[w + 1]]
              /\ ops' = Append(ops, [op |-> "merge", a |-> a, b |-> b])
         /\ UNCHANGED <<batches, todo, phase>>
Finish == /\ phase = "read" /\ todo = {} /\ Len(acc) = 1 /\ phase' = "done"
          /\ UNCHANGED <<batches, todo, acc, ops>>
Next == Draw \/ Start \/ Take \/ Merge \/ Finish

(* ------------------------------ properties ------------------------------ *)
Done == phase = "done"
Last == IF batches = <<>> THEN <<>> ELSE batches[Len(batches)]
Fresh == phase = "data"
\* the factors count every subset
Subsets == Fresh => \A t \in DOMAIN Targets :
  LET v == Values(Targets[t], Last, 1)  s == Sorted(v)  p == Part(v) IN
  Len(v) <= 9 => \A r \in 1..4 : p.n[r] = OfSubsets(r, s, 1, <<>>)
\* a dispersion is not negative, and 0 only for equal values
Dispersion == Fresh => \A t \in DOMAIN Targets :
  LET v == Values(Targets[t], Last, 1)  p == Part(v) IN
  p.n[2] >= 0 /\ (p.n[2] = 0 <=> \A i, j \in DOMAIN v : v[i] = v[j])
\* |l3| <= l2 and -3/2 l2 <= l4 <= l2 where there are enough values
Bounded == Fresh => \A t \in DOMAIN Targets :
  LET p == Part(Values(Targets[t], Last, 1)) IN
  \A r \in 3..4 : p.c[r] > 0 /\ p.c[1] <= 16 =>
    LET l == p.n[r] * 2 * p.c[2]  m == r * p.c[r] * p.n[2] IN l <= m /\ IF r = 3 THEN -m <= l ELSE -3 * m <= 2 * l
\* moving and mirroring the values
Moved(v, f, d) == [i \in DOMAIN v |-> f * v[i] + d]
Equivariant == Fresh => \A t \in DOMAIN Targets :
  LET v == Values(Targets[t], Last, 1)  p == Part(v)  m == Part(Moved(v, -2, 3)) IN
  /\ m.n[1] = -2 * p.n[1] + 3 * p.c[1] /\ m.n[2] = 2 * p.n[2]
  /\ m.n[3] = -2 * p.n[3] /\ m.n[4] = 2 * p.n[4]
\* whoever read what and however it was merged
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN [t \in DOMAIN Targets |-> None] ELSE PlusAll(Total(i - 1), PartsOf(batches[i]))
Schedule == Done => acc[1] = Total(Len(batches))

Emit == Done => PrintT("@@" \o ToJson([batches |-> batches, ops |-> ops, final |-> acc[1],
                                         parts |-> [b \in DOMAIN batches |-> PartsOf(batches[b])]]))
=============================================================================
