-------------------------------- MODULE Phases -------------------------------
(***************************************************************************)
(* Nested analyzers.                                                       *)
(*                                                                         *)
(* A program is a list of analyzers; each has a kind and one or two row     *)
(* expressions over the columns and the values of earlier analyzers        *)
(* (directly, through a lookup table built from them, through a vocabulary,*)
(* a function, a conditional or one of several outputs of an operation).   *)
(* An analyzer is ready once everything its expressions use has been       *)
(* computed; running it folds the expressions over all rows.               *)
(*                                                                         *)
(* Action Run computes any set of ready analyzers in one pass (a phase);   *)
(* the properties say that whatever passes are chosen, every analyzer gets *)
(* the value that evaluation one at a time in program order gives.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows,        \* set of row sequences to choose from
          MaxN, Kinds, Ops, Sim

VARIABLES rows, prog, val, done

vars == <<rows, prog, val, done>>

M(x) == x % 10
Scalar == {"sum", "min", "max", "size", "psum", "mom", "cov", "dot"}
Mapped == {"vocab", "cpk"}
Two == {"dot", "wvoc"}       \* of two columns
Vocabs == {"vocab", "wvoc"}

Cnt(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Spread(s) == Len(s) * SumSeq([i \in DOMAIN s |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* tokens by descending frequency, ties by descending token
Before(s, a, b) == Cnt(s, a) > Cnt(s, b) \/ (Cnt(s, a) = Cnt(s, b) /\ a > b)
RECURSIVE Order(_, _)
Order(s, S) == IF S = {} THEN <<>>
               ELSE LET h == CHOOSE a \in S : \A b \in S \ {a} : Before(s, a, b)
                    IN <<h>> \o Order(s, S \ {h})
\* the same with the weights t (and one for each occurrence)
Weight(s, t, x) == Cnt(s, x) + SumSeq([i \in DOMAIN s |-> IF s[i] = x THEN t[i] ELSE 0])
RECURSIVE OrderW(_, _, _)
OrderW(s, t, S) ==
  IF S = {} THEN <<>>
  ELSE LET h == CHOOSE a \in S : \A b \in S \ {a} : \/ Weight(s, t, a) > Weight(s, t, b)
                                                     \/ (Weight(s, t, a) = Weight(s, t, b) /\ a > b)
       IN <<h>> \o OrderW(s, t, S \ {h})
RECURSIVE Asc(_, _)
Asc(s, S) == IF S = {} THEN <<>>
             ELSE LET h == MinOf(S) IN <<<<h, Cnt(s, h)>>>> \o Asc(s, S \ {h})
IndexIn(s, x) == IF \E i \in DOMAIN s : s[i] = x
                 THEN (CHOOSE i \in DOMAIN s : s[i] = x) - 1 ELSE -1
CountIn(s, x) == IF \E i \in DOMAIN s : s[i][1] = x
                 THEN s[CHOOSE i \in DOMAIN s : s[i][1] = x][2] ELSE 0

\* What a row expression evaluates to on row r, given values v.
Row(e, r, v) ==
  LET x == r[e.c] IN
  CASE e.o = "col" -> x
    [] e.o \in {"add", "table", "fn", "part"} -> M(x + v[e.j])
    [] e.o = "sub" -> M(x - v[e.j])
    [] e.o = "mul" -> M(x * M(v[e.j]))
    [] e.o = "only" -> M(v[e.j])
    [] e.o = "two" -> M(x + 3 * v[e.j] + v[e.l])
    [] e.o = "cond" -> IF v[e.j] > 7 THEN x ELSE r[3 - e.c]
    \* two turns of a loop that carries two values, each of which becomes part of the other
    [] e.o = "loop" -> LET p == M(r[1] + v[e.j]) q == r[2] p1 == M(p + q) IN IF e.c = 1 THEN M(p1 + p) ELSE p1
    [] e.o = "const" -> IF e.c = 1 THEN 4 ELSE 6
    [] e.o = "index" -> M(IndexIn(v[e.j], x))
    [] e.o = "count" -> M(CountIn(v[e.j], x))
Column(e, v) == [i \in DOMAIN rows |-> Row(e, rows[i], v)]

Fold(k, s, t) ==
  CASE k \in {"sum", "psum"} -> SumSeq(s)
    [] k = "size" -> Len(s)
    [] k = "min" -> MinOf(Elems(s))
    [] k = "max" -> MaxOf(Elems(s))
    \* variance times the square of the size, and with the mean times the size
    [] k = "cov" -> Spread(s)
    [] k = "mom" -> SumSeq(s) + 10 * Spread(s)
    [] k = "dot" -> SumSeq([i \in DOMAIN s |-> s[i] * t[i]])
    [] k = "wvoc" -> OrderW(s, t, Elems(s))
    [] k = "vocab" -> Order(s, Elems(s))
    [] k = "cpk" -> Asc(s, Elems(s))

Uses(e) == (IF e.j = 0 THEN {} ELSE {e.j}) \cup (IF e.l = 0 THEN {} ELSE {e.l})
None == [o |-> "none", c |-> 1, j |-> 0, l |-> 0]
Deps(a) == Uses(a.e) \cup Uses(a.f)
Result(a, v) == Fold(a.k, Column(a.e, v), IF a.f.o = "none" THEN <<>> ELSE Column(a.f, v))

\* the reference: one at a time, in program order
RECURSIVE Direct(_, _)
Direct(n, v) == IF n > Len(prog) THEN v
                ELSE Direct(n + 1, Append(v, Result(prog[n], v)))

NeedsScalar == {"add", "table", "fn", "sub", "mul", "only", "two", "cond", "loop", "part"}
\* the expressions available given the kinds ks of the analyzers so far
Exprs(ks) ==
  LET sc == {i \in DOMAIN ks : ks[i] \in Scalar}
      vo == {i \in DOMAIN ks : ks[i] \in Vocabs}
      cp == {i \in DOMAIN ks : ks[i] = "cpk"}
  IN  {[o |-> o, c |-> c, j |-> 0, l |-> 0] : o \in Ops \cap {"col"}, c \in {1, 2}}
      \cup {[o |-> o, c |-> c, j |-> j, l |-> 0] :
              o \in (Ops \cap NeedsScalar) \ {"two"}, c \in {1, 2}, j \in sc}
      \cup {[o |-> o, c |-> c, j |-> j, l |-> l] : o \in Ops \cap {"two"}, c \in {1, 2}, j \in sc, l \in sc}
      \cup {[o |-> o, c |-> c, j |-> j, l |-> 0] : o \in Ops \cap {"index"}, c \in {1, 2}, j \in vo}
      \cup {[o |-> o, c |-> c, j |-> j, l |-> 0] : o \in Ops \cap {"count"}, c \in {1, 2}, j \in cp}
Consts == {[o |-> o, c |-> c, j |-> 0, l |-> 0] : o \in Ops \cap {"const"}, c \in {1, 2}}
Kds(p) == [i \in DOMAIN p |-> p[i].k]
Second(p, k) == IF k \in Two THEN Exprs(Kds(p)) ELSE {None}
Choices(p, k) == Exprs(Kds(p)) \cup (IF k \in {"min", "max"} THEN Consts ELSE {})

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* prefer expressions that use earlier analyzers
PickE(S) == IF ~Sim THEN S
            ELSE LET D == {e \in S : Uses(e) # {}} IN
                 IF D # {} /\ RandomElement(1..4) > 1 THEN {RandomElement(D)} ELSE {RandomElement(S)}

Init == /\ \E i \in (IF Sim THEN 1..60 ELSE {1}) : rows \in (IF Sim THEN {RandomElement(Rows)} ELSE Rows)
        /\ prog = <<>> /\ val = <<>> /\ done = {}

Define == /\ done = {} /\ Len(prog) < MaxN
          /\ \E k \in Pick(Kinds) : \E e \in PickE(Choices(prog, k)), f \in PickE(Second(prog, k)) :
               prog' = Append(prog, [k |-> k, e |-> e, f |-> f])
          /\ UNCHANGED <<rows, val, done>>

Ready == {i \in DOMAIN prog : i \notin done /\ Deps(prog[i]) \subseteq done}
Value(i) == Result(prog[i], val)
Run == /\ prog # <<>> /\ (Sim => Len(prog) = MaxN)
       /\ Ready # {}
       /\ \E S \in (IF Sim THEN {Ready} ELSE SUBSET Ready \ {{}}) :
            /\ done' = done \cup S
            /\ val' = [i \in done \cup S |-> IF i \in done THEN val[i] ELSE Value(i)]
       /\ UNCHANGED <<rows, prog>>

Next == Define \/ Run
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Confluent == \A i \in done : val[i] = Direct(1, <<>>)[i]
\* a pass is always possible until everything is computed
Progress == (prog # <<>> /\ done # {} /\ done # DOMAIN prog) => Ready # {}

Finished == prog # <<>> /\ done = DOMAIN prog
Emit == Finished => PrintT("@@" \o ToJson(
          [rows |-> rows, prog |-> prog, val |-> val,
           out |-> [i \in DOMAIN prog |-> Column(prog[i].e, val)]]))
=============================================================================
