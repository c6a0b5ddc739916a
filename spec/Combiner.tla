------------------------------ MODULE Combiner ------------------------------
(***************************************************************************)
(* Evaluation of an analyzer by a distributed runner.                      *)
(*                                                                         *)
(* The runner owns a set of partial results (accumulators).  It may create *)
(* empty ones, feed a batch of rows to any of them, merge any sequence of  *)
(* them (in any order, including empty ones), compact one, or send one     *)
(* through the analyzer cache (encode/decode).  In the end it merges       *)
(* whatever is left and extracts the value of the analyzer.                *)
(*                                                                         *)
(* A partial result is described twice:                                    *)
(*   rows : the sequence of rows it has absorbed (the definition)          *)
(*   st   : summary statistics maintained incrementally, with the          *)
(*          mean/variance update rule in exact rational arithmetic         *)
(* and the invariant StatsAgree says that both descriptions agree in every *)
(* reachable state, whatever the schedule.                                 *)
(*                                                                         *)
(* A value is an integer; a few codes stand for special values:            *)
(*   PInf / NInf : +-infinity for floats, the extremes of the dtype for    *)
(*                 integers (they order correctly as integers)             *)
(*   NaN, Miss   : not a number; absent from a sparse row                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows,       \* set of rows; a row is <<column 1, column 2>>
          MaxBatch,   \* rows per batch
          MaxAccs,    \* partial results ever created
          MaxSteps,   \* scheduler steps before the final merge
          EmptyBatch  \* whether a batch without rows may be fed

VARIABLES accs, live, steps, log, done

vars == <<accs, live, steps, log, done>>

PInf == 100
NInf == -100
NaN  == 200
Miss == 201
Finite(v) == v > NInf /\ v < PInf
Present(v) == v # Miss

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN
             IF n = 0 THEN <<0, 1>>
             ELSE IF d < 0 THEN <<(-n) \div g, (-d) \div g>> ELSE <<n \div g, d \div g>>
RAdd(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == Rat(x[1] * y[1], x[2] * y[2])

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN NInf ELSE Max2(Head(s), MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF s = <<>> THEN PInf ELSE Min2(Head(s), MinSeq(Tail(s)))

Col(rows, c) == [i \in 1..Len(rows) |-> rows[i][c]]
Keep(s, P(_)) == SelectSeq(s, P)

(* ---------------- definition: value of the statistics of a bag of rows -- *)
ColDef(rows, c) ==
  LET all == Keep(Col(rows, c), Present)
      fin == Keep(all, Finite)
      num == Keep(all, LAMBDA v : v # NaN)
      n   == Len(fin)
      s   == SumSeq(fin)
      q   == SumSeq([i \in 1..n |-> fin[i] * fin[i]])
  IN [ cnt  |-> Len(all), n |-> n, sum |-> s, sumsq |-> q,
       min  |-> MinSeq(num), max |-> MaxSeq(num),
       hasnan |-> \E i \in 1..Len(all) : all[i] = NaN,
       hasinf |-> \E i \in 1..Len(all) : all[i] \in {PInf, NInf},
       mean |-> IF n = 0 THEN <<0, 1>> ELSE Rat(s, n),
       var  |-> IF n = 0 THEN <<0, 1>> ELSE Rat(n * q - s * s, n * n) ]

Cross(rows) == SumSeq([i \in 1..Len(rows) |-> rows[i][1] * rows[i][2]])
AllFinite(rows) == \A i \in 1..Len(rows) : Finite(rows[i][1]) /\ Finite(rows[i][2])

Expected(rows) ==
  [ rows |-> Len(rows), c1 |-> ColDef(rows, 1), c2 |-> ColDef(rows, 2),
    finite |-> AllFinite(rows),
    cross |-> IF AllFinite(rows) THEN Cross(rows) ELSE 0,
    data |-> rows ]

(* ---------------- algorithm: incremental summary ------------------------ *)
EmptyStat == [n |-> 0, mean |-> <<0, 1>>, var |-> <<0, 1>>,
              cnt |-> 0, min |-> PInf, max |-> NInf]

Combine(a, b) ==
  LET n == a.n + b.n
      w == IF n = 0 THEN <<0, 1>> ELSE Rat(b.n, n)
      d == RSub(b.mean, a.mean)
      m == RAdd(a.mean, RMul(w, d))
      v == RAdd(a.var, RMul(w, RAdd(RSub(b.var, a.var), RMul(RSub(b.mean, m), d))))
  IN [ n |-> n, mean |-> m, var |-> v, cnt |-> a.cnt + b.cnt,
       min |-> Min2(a.min, b.min), max |-> Max2(a.max, b.max) ]

BatchStat(rows, c) ==
  LET d == ColDef(rows, c) IN
  [ n |-> d.n, mean |-> d.mean, var |-> d.var, cnt |-> d.cnt,
    min |-> d.min, max |-> d.max ]

Empty == [rows |-> <<>>, st |-> <<EmptyStat, EmptyStat>>]
AddTo(a, b) == [rows |-> a.rows \o b,
                st |-> [c \in 1..2 |-> Combine(a.st[c], BatchStat(b, c))]]
RECURSIVE MergeAll(_)
MergeAll(s) ==
  IF Len(s) = 1 THEN s[1]
  ELSE LET x == s[1] y == s[2] IN
       MergeAll(<<[rows |-> x.rows \o y.rows,
                   st |-> [c \in 1..2 |-> Combine(x.st[c], y.st[c])]]>>
                \o SubSeq(s, 3, Len(s)))

Batches == UNION {[1..k -> Rows] : k \in (IF EmptyBatch THEN 0 ELSE 1)..MaxBatch}

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}

Init == /\ accs = <<>> /\ live = {} /\ steps = 0 /\ log = <<>> /\ done = FALSE

Step(rec) == /\ steps' = steps + 1
             /\ log' = Append(log, rec)

New == /\ ~done /\ Len(accs) < MaxAccs /\ steps < MaxSteps
       /\ accs' = Append(accs, Empty) /\ live' = live \cup {Len(accs) + 1}
       /\ Step([a |-> "new", i |-> Len(accs) + 1, e |-> Expected(<<>>)])
       /\ UNCHANGED done

Add == /\ ~done /\ steps < MaxSteps
       /\ \E i \in live, b \in Batches :
            LET r == AddTo(accs[i], b) IN
            /\ accs' = [accs EXCEPT ![i] = r]
            /\ Step([a |-> "add", i |-> i, b |-> b, e |-> Expected(r.rows)])
       /\ UNCHANGED <<live, done>>

MergeInto(S, p) ==
  LET r == MergeAll([k \in 1..Len(p) |-> accs[p[k]]]) IN
  /\ accs' = [accs EXCEPT ![p[1]] = r]
  /\ live' = (live \ S) \cup {p[1]}
  /\ Step([a |-> "merge", i |-> p[1], from |-> p, e |-> Expected(r.rows)])

Merge == /\ ~done /\ steps < MaxSteps
         /\ \E S \in SUBSET live : S # {} /\ \E p \in Perms(S) : MergeInto(S, p)
         /\ UNCHANGED done

Same(kind) == /\ ~done /\ steps < MaxSteps
              /\ \E i \in live : Step([a |-> kind, i |-> i, e |-> Expected(accs[i].rows)])
              /\ UNCHANGED <<accs, live, done>>
Compact == Same("compact")
Codec == Same("codec")

Finish == /\ ~done /\ live # {} /\ steps >= MaxSteps
          /\ \E p \in Perms(live) : MergeInto(live, p)
          /\ done' = TRUE

Next == New \/ Add \/ Merge \/ Compact \/ Codec \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
StatsAgree ==
  \A i \in live : \A c \in 1..2 :
     LET d == ColDef(accs[i].rows, c) s == accs[i].st[c] IN
     /\ s.n = d.n /\ s.mean = d.mean /\ s.var = d.var
     /\ s.cnt = d.cnt /\ s.min = d.min /\ s.max = d.max

\* No row is lost or duplicated by the schedule.
Fed == LET RECURSIVE F(_)
           F(l) == IF l = <<>> THEN 0
                   ELSE (IF Head(l).a = "add" THEN Len(Head(l).b) ELSE 0) + F(Tail(l))
       IN F(log)
Held == LET RECURSIVE H(_)
            H(S) == IF S = {} THEN 0
                    ELSE LET i == CHOOSE x \in S : TRUE IN Len(accs[i].rows) + H(S \ {i})
        IN H(live)
Conserved == Fed = Held

View == <<accs, live, steps, done>>
Emit == done => PrintT("@@" \o ToJson(log))
=============================================================================
