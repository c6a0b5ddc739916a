-------------------------------- MODULE Vocab --------------------------------
(***************************************************************************)
(* Computing a vocabulary and looking tokens up in it.                     *)
(*                                                                         *)
(* Tokens are numbered in the byte order of the strings they stand for;    *)
(* those in Bad are empty or hold line separators.  Rows are split into    *)
(* batches, every batch is counted, the counts are merged pairwise in any  *)
(* order; then thresholds, top k, coverage, reserved tokens and ordering   *)
(* are applied.  The properties compare the outcome with a definition over *)
(* the multiset of all values.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens,     \* 0..n
          Bad,        \* tokens a text vocabulary cannot hold
          Key,        \* coverage key of a token: function
          Hash,       \* position of a token in fingerprint order: function
          Data,       \* set of data sets: sequences of rows, a row is
                      \*   [t |-> sequence of tokens, w |-> sequence of weights]
          Options,    \* set of option records
          NOpts, Queries, Sim

None == -1

VARIABLES rows, cut, parts, opts, phase
vars == <<rows, cut, parts, opts, phase>>

(* --------------------------- the definition ----------------------------- *)
Values(rs) == UNION {{<<r, i>> : i \in DOMAIN rs[r].t} : r \in DOMAIN rs}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
WeightOf(rs, t, weighted) ==
  LET P == {p \in Values(rs) : rs[p[1]].t[p[2]] = t}
  IN  IF weighted THEN SumOver([p \in P |-> rs[p[1]].w[p[2]]], P) ELSE Cardinality(P)
Present(rs, o) == {t \in Tokens : /\ \E p \in Values(rs) : rs[p[1]].t[p[2]] = t
                                  /\ o.fmt = "text" => t \notin Bad}
Before(c, a, b) == c[a] > c[b] \/ (c[a] = c[b] /\ a > b)
RECURSIVE Ordered(_, _)
Ordered(c, S) == IF S = {} THEN <<>>
                 ELSE LET h == CHOOSE a \in S : \A b \in S \ {a} : Before(c, a, b)
                      IN <<h>> \o Ordered(c, S \ {h})
RECURSIVE Shuffled(_)
Shuffled(S) == IF S = {} THEN <<>>
               ELSE LET h == CHOOSE a \in S : \A b \in S \ {a} : Hash[a] < Hash[b]
                    IN <<h>> \o Shuffled(S \ {h})
First(s, k) == {s[i] : i \in 1..(IF k = None \/ Len(s) < k THEN Len(s) ELSE k)}
Elems(s) == {s[i] : i \in DOMAIN s}

\* c: the counts, a function from tokens to numbers
Standard(c, o) == First(Ordered(c, {t \in DOMAIN c : o.thr = None \/ c[t] >= o.thr}), o.topk)
Covered(c, o) ==
  IF o.covk = None /\ o.covt = None THEN {}
  ELSE UNION {First(Ordered(c, {t \in DOMAIN c : Key[t] = k /\ (o.covt = None \/ c[t] >= o.covt)}), o.covk)
              : k \in {Key[t] : t \in DOMAIN c}}
Selected(c, o) == Standard(c, o) \cup Covered(c, o)
Entries(c, o) ==
  LET S == Selected(c, o) \ Elems(o.res)
  IN  [res |-> o.res, toks |-> IF o.shuf THEN Shuffled(S) ELSE Ordered(c, S)]
\* an empty vocabulary is written as a single entry that is not a token
File(c, o) ==
  LET e == Entries(c, o) IN
  IF e.res = <<>> /\ e.toks = <<>> THEN [res |-> <<>>, toks |-> <<>>, dummy |-> TRUE]
  ELSE [res |-> e.res, toks |-> e.toks, dummy |-> FALSE]
Size(f) == Len(f.res) + Len(f.toks) + (IF f.dummy THEN 1 ELSE 0)
\* what the count of selected tokens plus reserved ones gives
Recorded(c, o) == LET n == Cardinality(Selected(c, o)) IN (IF n = 0 THEN 1 ELSE n) + Len(o.res)

\* the position of a token in the file, or None
Position(f, t) ==
  LET all == f.res \o f.toks IN
  IF \E i \in DOMAIN all : all[i] = t THEN (CHOOSE i \in DOMAIN all : all[i] = t) - 1 ELSE None
Lookup(f, o, t) ==
  IF Position(f, t) # None THEN Position(f, t) ELSE IF o.oov > 0 THEN -2 ELSE o.dflt
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Domain(f, o) == IF o.oov > 0 THEN <<0, Size(f) + o.oov - 1>>
                ELSE <<Min(0, o.dflt), Max(Size(f) - 1, o.dflt)>>

Truth(rs, o) == [t \in Present(rs, o) |-> WeightOf(rs, t, o.w)]

(* ------------------------------ the process ----------------------------- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == /\ \E i \in (IF Sim THEN 1..100 ELSE {1}) : \E d \in Data : rows = d
        /\ opts = <<>> /\ cut = <<>> /\ parts = <<>> /\ phase = "options"

AddOption == /\ phase = "options" /\ Len(opts) < NOpts
             /\ \E o \in Pick(Options) : opts' = Append(opts, o)
             /\ UNCHANGED <<rows, cut, parts, phase>>
StartCut == /\ phase = "options" /\ Len(opts) = NOpts /\ phase' = "cut"
            /\ UNCHANGED <<rows, cut, parts, opts>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sub(from, n) == SubSeq(rows, from + 1, from + n)
\* one batch of 0 or more rows is read and counted, for every option
Batch == /\ phase = "cut"
         /\ \E n \in Pick(0..(Len(rows) - SumSeq(cut))) :
              /\ cut' = Append(cut, n)
              /\ Len(cut) < Len(rows) + 1
              /\ parts' = Append(parts, [k \in DOMAIN opts |-> Truth(Sub(SumSeq(cut), n), opts[k])])
         /\ UNCHANGED <<rows, opts, phase>>
StartMerge == /\ phase = "cut" /\ cut # <<>> /\ SumSeq(cut) = Len(rows) /\ phase' = "merge"
              /\ UNCHANGED <<rows, cut, parts, opts>>
Get(f, t) == IF t \in DOMAIN f THEN f[t] ELSE 0
Plus(f, g) == [t \in DOMAIN f \cup DOMAIN g |-> Get(f, t) + Get(g, t)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Merge == /\ phase = "merge" /\ Len(parts) > 1
         /\ \E i \in Pick(1..Len(parts) - 1) :
              parts' = Append(Without(Without(parts, i + 1), i),
                              [k \in DOMAIN opts |-> Plus(parts[i][k], parts[i + 1][k])])
         /\ UNCHANGED <<rows, cut, opts, phase>>
Finish == /\ phase = "merge" /\ Len(parts) = 1 /\ phase' = "done"
          /\ UNCHANGED <<rows, cut, parts, opts>>
Next == AddOption \/ StartCut \/ Batch \/ StartMerge \/ Merge \/ Finish

(* ------------------------------ properties ------------------------------ *)
Result(k) == File(parts[1][k], opts[k])
Done == phase = "done"
BatchingIrrelevant == Done => \A k \in DOMAIN opts : parts[1][k] = Truth(rows, opts[k])
EachOnce == Done => \A k \in DOMAIN opts :
  LET f == Result(k) all == f.res \o f.toks IN
  (\A i, j \in DOMAIN opts[k].res : i # j => opts[k].res[i] # opts[k].res[j])
     => \A i, j \in DOMAIN all : i # j => all[i] # all[j]
\* everything left out is rarer than everything a plain top k keeps
TopIsTop == Done => \A k \in DOMAIN opts :
  LET c == parts[1][k] S == Standard(c, opts[k]) IN
  \A a \in S : \A b \in DOMAIN c \ S :
     (opts[k].thr = None \/ c[b] >= opts[k].thr) => Before(c, a, b)
Extends == Done => \A k \in DOMAIN opts :   \* coverage only appends
  LET o == opts[k] c == parts[1][k]
      std == Entries(c, [o EXCEPT !.covk = None, !.covt = None]).toks
      cov == Entries(c, o).toks
  IN  ~o.shuf => SubSeq(cov, 1, Len(std)) = std
InDomain == Done => \A k \in DOMAIN opts : \A t \in Queries :
  LET f == Result(k) d == Domain(f, opts[k]) x == Lookup(f, opts[k], t) IN
  x # -2 => d[1] <= x /\ x <= d[2]

Emit == Done => PrintT("@@" \o ToJson(
  [rows |-> rows, cut |-> cut,
   cases |-> [k \in DOMAIN opts |->
     LET c == parts[1][k] f == Result(k) IN
     [o |-> opts[k], file |-> f, size |-> Size(f), recorded |-> Recorded(c, opts[k]),
      counts |-> [i \in DOMAIN f.toks |-> c[f.toks[i]]],
      all |-> [i \in 1..Cardinality(Tokens) |-> Get(c, i - 1)],
      domain |-> Domain(f, opts[k]),
      lookup |-> [i \in 1..Cardinality(Queries) |-> Lookup(f, opts[k], i - 1)],
      hidden |-> opts[k].topk # None /\ Standard(c, opts[k]) = {}]]]))
=============================================================================
