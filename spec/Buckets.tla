------------------------------- MODULE Buckets -------------------------------
(***************************************************************************)
(* Bucket boundaries and bucket assignment.                                *)
(*                                                                         *)
(* Values are integers; NI, PI and NA stand for -infinity, +infinity and   *)
(* not-a-number.  A summary of the data may return, as boundary number i   *)
(* of nb, any value whose weighted rank is i/nb of the total weight up to  *)
(* the error 1/Err of it.  Assigning counts the boundaries that are less   *)
(* than or equal to a value; interpolation places it within its bucket.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Data,      \* set of data sets: sequences of [k, p, v, w], all naturals/integers
          Given,     \* set of sorted sequences of boundaries
          Buckets,   \* numbers of buckets asked for
          Weighted,  \* subset of BOOLEAN
          Groups,    \* 0: all rows; k > 0: rows with that key; k < 0: rows at position -k
          Grid,      \* sequence of values asked for
          Err, NCases, Sim

NI == -999
PI == 999
NA == 777

VARIABLES rows, given, cases, chosen, phase
vars == <<rows, given, cases, chosen, phase>>

\* the weighted values of a group: set of <<position, value, weight>>; two
\* entries make an instance, and summaries by position weigh whole instances
InGroup(r, g) == g = 0 \/ (g > 0 /\ r.k = g) \/ (g < 0 /\ r.p = -g)
WeightAt(i, g, weighted) ==
  IF ~weighted THEN 1 ELSE IF g < 0 THEN rows[i - ((i - 1) % 2)].w ELSE rows[i].w
Obs(g, weighted) == {<<i, rows[i].v, WeightAt(i, g, weighted)>> :
                     i \in {j \in DOMAIN rows : /\ InGroup(rows[j], g)
                                                /\ rows[j].v # NA
                                                /\ WeightAt(j, g, weighted) # NA}}
RECURSIVE Weight(_)
Weight(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + Weight(S \ {x})
Below(S, v) == Weight({x \in S : x[2] < v})
UpTo(S, v) == Weight({x \in S : x[2] <= v})
\* values that may be boundary i of nb
Accepted(S, nb, i) ==
  LET W == Weight(S) IN
  {v \in {x[2] : x \in {y \in S : y[3] > 0}} :
     /\ Err * (nb * Below(S, v) - i * W) <= nb * W
     /\ Err * (i * W - nb * UpTo(S, v)) <= nb * W}

(* ------------------------------ assignment ------------------------------ *)
Index(b, x) == IF x = NA THEN Len(b) ELSE Cardinality({i \in DOMAIN b : b[i] <= x})
Finite(b) == SelectSeq(b, LAMBDA y : y # NI /\ y # PI)
\* the position within [0, 1], as a fraction
Interpolated(b, x) ==
  LET f == Finite(b)  n == Len(f)  i == Index(f, x)  IN
  IF x = NA THEN <<1, 2>>
  ELSE IF i = 0 THEN <<0, 1>>
  ELSE IF i = n THEN <<1, 1>>
  ELSE LET w == f[i + 1] - f[i] IN <<(i - 1) * w + x - f[i], w * (n - 1)>>

(* ------------------------------ the process ----------------------------- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == rows = <<>> /\ given = <<>> /\ cases = <<>> /\ chosen = <<>> /\ phase = "data"
ChooseData == /\ phase = "data" /\ \E d \in Data : rows' = d
              /\ \E g \in Pick(Given) : given' = g
              /\ phase' = "cases" /\ UNCHANGED <<cases, chosen>>
AddCase == /\ phase = "cases" /\ Len(cases) < NCases
           /\ \E nb \in Pick(Buckets) : \E w \in Pick(Weighted) :
                cases' = Append(cases, [nb |-> nb, w |-> w])
           /\ UNCHANGED <<rows, given, chosen, phase>>
\* the summary settles on boundaries, one after another, in order
Summarise == /\ phase = "cases" /\ Len(cases) = NCases /\ phase' = IF Sim THEN "done" ELSE "choose"
             /\ UNCHANGED <<rows, given, cases, chosen>>
LastOf(s) == IF s = <<>> THEN NI ELSE s[Len(s)]
Settle == /\ phase = "choose" /\ Len(chosen) < cases[1].nb - 1
          /\ \E v \in {y \in Accepted(Obs(0, cases[1].w), cases[1].nb, Len(chosen) + 1) : y >= LastOf(chosen)} :
               chosen' = Append(chosen, v)
          /\ UNCHANGED <<rows, given, cases, phase>>
Finish == /\ phase = "choose" /\ Len(chosen) = cases[1].nb - 1 /\ phase' = "done"
          /\ UNCHANGED <<rows, given, cases, chosen>>
Next == ChooseData \/ AddCase \/ Summarise \/ Settle \/ Finish

(* ------------------------------ properties ------------------------------ *)
Asked == {Grid[i] : i \in DOMAIN Grid}
Monotone == \A x, y \in Asked \ {NA} : x <= y => Index(given, x) <= Index(given, y)
InDomain == \A x \in Asked : Index(given, x) \in 0..Len(given)
Agrees == \A x \in Asked \ {NA} : LET i == Index(given, x) IN
  /\ i > 0 => given[i] <= x
  /\ i < Len(given) => x < given[i + 1]
Less(a, b) == a[1] * b[2] <= b[1] * a[2]
InterpolationMonotone == Finite(given) # <<>> => \A x, y \in Asked \ {NA} :
  x <= y => Less(Interpolated(given, x), Interpolated(given, y))
InterpolationInRange == Finite(given) # <<>> => \A x \in Asked :
  LET f == Interpolated(given, x) IN f[2] > 0 /\ 0 <= f[1] /\ f[1] <= f[2]
\* a quantile always exists, whatever was settled on before
Possible == phase = "choose" /\ Len(chosen) < cases[1].nb - 1 =>
  LET S == Obs(0, cases[1].w) IN
  Weight(S) > 0 => \E v \in Accepted(S, cases[1].nb, Len(chosen) + 1) : v >= LastOf(chosen)
\* no bucket is heavier than its share, up to the error and the ties at its start
Balanced == phase = "done" /\ chosen # <<>> =>
  LET S == Obs(0, cases[1].w)  W == Weight(S)  nb == cases[1].nb
      In(j) == {x \in S : Index(chosen, x[2]) = j}
      Ties(j) == IF j = 0 THEN {} ELSE {x \in S : x[2] = chosen[j]} IN
  \A j \in 0..nb - 1 : Err * nb * (Weight(In(j) \ Ties(j))) <= Err * W + 2 * nb * W

Emit == phase = "done" => PrintT("@@" \o ToJson(
  [rows |-> rows, given |-> given,
   index |-> [i \in DOMAIN Grid |-> Index(given, Grid[i])],
   inter |-> [i \in DOMAIN Grid |-> IF Finite(given) = <<>> THEN <<0, 1>> ELSE Interpolated(given, Grid[i])],
   cases |-> [c \in DOMAIN cases |->
     [nb |-> cases[c].nb, w |-> cases[c].w,
      acc |-> [g \in DOMAIN Groups |->
        [i \in 1..cases[c].nb - 1 |-> Accepted(Obs(Groups[g], cases[c].w), cases[c].nb, i)]]]]]))
=============================================================================
