-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Rows through a transformation.                                          *)
(*                                                                         *)
(* A stream of rows arrives in batches.  A batch is transformed column by  *)
(* column, columns that are only passed through are attached, and the      *)
(* result is cut into slices that are small enough.  The preprocessing     *)
(* function may turn every row into several ("explode"); what is passed    *)
(* through can then only be attached if it is the same for the batch.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Outs,       \* columns that the preprocessing function makes
          Keys,       \* columns that may be passed through
          PassValues, Weights, Limits, Explodes, MaxRows, MaxBatches, Sim

VARIABLES conf, batches, done, emitted, failed
vars == <<conf, batches, done, emitted, failed>>

Null == -1
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Elems(s) == {s[i] : i \in DOMAIN s}
Draw(S) == RandomElement(S)

\* the value that a row has in an output; copies of a row differ
Value(o, row, copy) == <<o, row.id, copy>>
Shown == Outs \ conf.excluded
Passed == conf.asked \cap conf.present

(* ------------------------------ a batch --------------------------------- *)
Column(o, b) == Concat([r \in DOMAIN b |-> [c \in 1..conf.explode |-> Value(o, b[r], c)]])
PassColumn(k, b) == [r \in DOMAIN b |-> b[r].pass[k]]
Sizes(b) == Concat([r \in DOMAIN b |-> [c \in 1..conf.explode |-> b[r].w]])
\* pieces as (first, last), halving what is too large
RECURSIVE Slices(_, _, _)
Slices(sz, lo, hi) ==
  IF Sum(SubSeq(sz, lo, hi)) > conf.limit /\ hi > lo
  THEN LET mid == lo + (hi - lo + 1) \div 2 - 1 IN Slices(sz, lo, mid) \o Slices(sz, mid + 1, hi)
  ELSE <<<<lo, hi>>>>
Fits(k, b) == conf.explode = 1 \/ b = <<>> \/ Cardinality(Elems(PassColumn(k, b))) = 1
Emitted(n, b) ==
  LET sz == Sizes(b)
      unary == IF conf.explode = 1 \/ b = <<>> THEN {} ELSE Passed
      all == [c \in Shown \cup (Passed \ unary) |-> IF c \in Outs THEN Column(c, b) ELSE PassColumn(c, b)]
      cuts == Slices(sz, 1, Len(sz))
  IN [s \in DOMAIN cuts |-> [batch |-> n, size |-> Sum(SubSeq(sz, cuts[s][1], cuts[s][2])),
        num |-> cuts[s][2] - cuts[s][1] + 1,
        cols |-> [c \in DOMAIN all |-> SubSeq(all[c], cuts[s][1], cuts[s][2])],
        unary |-> [k \in unary |-> b[1].pass[k]]]]
\* a slice as rows
Instances(s) == [r \in 1..s.num |-> [c \in DOMAIN s.cols \cup DOMAIN s.unary |->
                   IF c \in DOMAIN s.cols THEN s.cols[c][r] ELSE s.unary[c]]]

(* ------------------------------ the process ----------------------------- *)
RowOf(i, w, p) == [id |-> i, w |-> w, pass |-> p]
Total == Sum([k \in DOMAIN batches |-> Len(batches[k])])
Init == /\ conf \in IF Sim THEN {[limit |-> 0]} ELSE
            [excluded : {{}} \cup {{o} : o \in Outs}, asked : SUBSET Keys, present : {Keys}, explode : Explodes, limit : Limits]
        /\ batches = <<>> /\ done = 0 /\ emitted = <<>> /\ failed = {}
Begin == /\ Sim /\ conf.limit = 0
         /\ conf' = [excluded |-> IF Draw(1..2) = 1 THEN {} ELSE {o \in Outs : Draw(1..3) = 1} \ {CHOOSE o \in Outs : TRUE},
                     asked |-> Draw(SUBSET Keys), present |-> Draw(SUBSET Keys),
                     explode |-> Draw(Explodes), limit |-> Draw(Limits)]
         /\ UNCHANGED <<batches, done, emitted, failed>>
Arrive == /\ conf.limit # 0 /\ Len(batches) < MaxBatches
          /\ IF Sim
             THEN LET how == Draw(1..3)
                      p0 == [k \in Keys |-> Draw(PassValues)]
                      p(i) == CASE how = 1 -> p0
                                [] how = 2 -> [k \in Keys |-> Draw({Null, p0[k]})]
                                [] OTHER -> [k \in Keys |-> Draw(PassValues)]
                  IN batches' = Append(batches, [i \in 1..Draw(0..MaxRows) |-> RowOf(Total + i, Draw(Weights), p(i))])
             ELSE \E n \in 0..MaxRows : \E ws \in [1..n -> Weights] : \E ps \in [1..n -> [Keys -> PassValues]] :
                  batches' = Append(batches, [i \in 1..n |-> RowOf(Total + i, ws[i], ps[i])])
          /\ UNCHANGED <<conf, done, emitted, failed>>
Process == /\ done < Len(batches)
           /\ done' = done + 1
           /\ LET b == batches[done + 1] IN
              IF \A k \in Passed : Fits(k, b) THEN emitted' = emitted \o Emitted(done + 1, b) /\ UNCHANGED failed
              ELSE failed' = failed \cup {done + 1} /\ UNCHANGED emitted
           /\ UNCHANGED <<conf, batches>>
Next == Begin \/ Arrive \/ Process

(* ------------------------------ properties ------------------------------ *)
\* what a batch gives, row by row
Want(b) == Concat([r \in DOMAIN b |-> [c \in 1..conf.explode |->
             [x \in Shown \cup Passed |-> IF x \in Outs THEN Value(x, b[r], c) ELSE b[r].pass[x]]]])
Given(n) == LET mine == SelectSeq(emitted, LAMBDA s : s.batch = n) IN Concat([k \in DOMAIN mine |-> Instances(mine[k])])
OneToOne == \A n \in 1..done : n \notin failed => Given(n) = Want(batches[n])
InOrder == \A j, k \in DOMAIN emitted : j < k => emitted[j].batch <= emitted[k].batch
Bounded == \A k \in DOMAIN emitted : emitted[k].size <= conf.limit \/ emitted[k].num = 1
NothingEmpty == \A k \in DOMAIN emitted : emitted[k].num = 0 => batches[emitted[k].batch] = <<>>
OnlyAmbiguousFails == conf.limit # 0 /\ failed # {} => conf.explode > 1

Emit == (conf.limit # 0 /\ Len(batches) = MaxBatches /\ done = MaxBatches) => PrintT("@@" \o ToJson(
  [excluded |-> SetToSeq(conf.excluded), asked |-> SetToSeq(conf.asked), present |-> SetToSeq(conf.present),
   explode |-> conf.explode, limit |-> conf.limit, failed |-> SetToSeq(failed),
   batches |-> batches, shown |-> SetToSeq(Shown), passed |-> SetToSeq(Passed),
   want |-> [n \in 1..MaxBatches |-> IF n \in failed THEN <<>> ELSE
      [r \in DOMAIN Given(n) |-> [id |-> Given(n)[r][CHOOSE o \in Shown : TRUE][2], copy |-> Given(n)[r][CHOOSE o \in Shown : TRUE][3],
         pass |-> [k \in Passed |-> Given(n)[r][k]]]]]]))
=============================================================================
