------------------------------- MODULE CoOccur -------------------------------
(***************************************************************************)
(* Counting tokens together with labels.  A row has a set of tokens, a     *)
(* label and a weight.  Every batch yields, for each of its tokens and for *)
(* a sentinel standing for all rows, the (weighted) number of rows and the *)
(* number per label up to the largest label of the batch; merging adds     *)
(* them, padding the shorter list of labels.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens, Bad, Data, Weighted, Sim

VARIABLES rows, weighted, cut, parts, phase
vars == <<rows, weighted, cut, parts, phase>>

All == -1  \* the sentinel
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Max(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
W(r) == IF weighted THEN r.w ELSE 1
With(rs, t) == {i \in DOMAIN rs : t = All \/ t \in rs[i].t \ Bad}
Total(rs, t) == SumOver([i \in With(rs, t) |-> W(rs[i])], With(rs, t))
Per(rs, t, y) == LET S == {i \in With(rs, t) : rs[i].y = y} IN SumOver([i \in S |-> W(rs[i])], S)
\* what one batch gives for a token: its total and the list per label
Table(rs) ==
  LET top == Max({rs[i].y : i \in DOMAIN rs})
      ts == {t \in Tokens \cup {All} : With(rs, t) # {}}
  IN  [t \in ts |-> [x |-> Total(rs, t), y |-> [j \in 1..top + 1 |-> Per(rs, t, j - 1)]]]

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ \E i \in (IF Sim THEN 1..100 ELSE {1}) : \E d \in Data : rows = d
        /\ weighted \in Pick(Weighted) /\ cut = <<>> /\ parts = <<>> /\ phase = "cut"
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sub(from, n) == SubSeq(rows, from + 1, from + n)
Batch == /\ phase = "cut" /\ SumSeq(cut) < Len(rows)
         /\ \E n \in Pick(1..(Len(rows) - SumSeq(cut))) :
              /\ cut' = Append(cut, n)
              /\ parts' = Append(parts, Table(Sub(SumSeq(cut), n)))
         /\ UNCHANGED <<rows, weighted, phase>>
StartMerge == /\ phase = "cut" /\ SumSeq(cut) = Len(rows) /\ phase' = "merge"
              /\ UNCHANGED <<rows, weighted, cut, parts>>
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Add(a, b) == [x |-> a.x + b.x, y |-> [j \in 1..Longer(a.y, b.y) |-> At(a.y, j) + At(b.y, j)]]
Plus(f, g) == [t \in DOMAIN f \cup DOMAIN g |->
                IF t \notin DOMAIN g THEN f[t] ELSE IF t \notin DOMAIN f THEN g[t] ELSE Add(f[t], g[t])]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Merge == /\ phase = "merge" /\ Len(parts) > 1
         /\ \E i \in Pick(1..Len(parts) - 1) : \E j \in Pick(i + 1..Len(parts)) :
              /\ parts' = Append(Without(Without(parts, j), i), Plus(parts[i], parts[j]))
         /\ UNCHANGED <<rows, weighted, cut, phase>>
Finish == /\ phase = "merge" /\ Len(parts) = 1 /\ phase' = "done"
          /\ UNCHANGED <<rows, weighted, cut, parts>>
Next == Batch \/ StartMerge \/ Merge \/ Finish

Done == phase = "done"
Final == parts[1]
BatchingIrrelevant == Done =>
  /\ DOMAIN Final = DOMAIN Table(rows)
  /\ \A t \in DOMAIN Final :
       /\ Final[t].x = Total(rows, t)
       /\ \A j \in 1..10 : At(Final[t].y, j) = Per(rows, t, j - 1)
Bounds == Done => \A t \in DOMAIN Final :
  /\ Final[t].x <= Final[All].x
  /\ \A j \in DOMAIN Final[t].y : Final[t].y[j] <= At(Final[All].y, j)
XOf(t) == IF t \in DOMAIN Final THEN Final[t].x ELSE 0
YOf(t, j) == IF t \in DOMAIN Final THEN At(Final[t].y, j) ELSE 0
Emit == Done => PrintT("@@" \o ToJson(
  [rows |-> rows, weighted |-> weighted, cut |-> cut, n |-> Final[All].x, y |-> Final[All].y,
   x |-> [i \in 1..Cardinality(Tokens) |-> XOf(i - 1)],
   present |-> [i \in 1..Cardinality(Tokens) |-> (i - 1) \in DOMAIN Final],
   xy |-> [i \in 1..Cardinality(Tokens) |-> [j \in 1..Len(Final[All].y) |-> YOf(i - 1, j)]]]))
=============================================================================
