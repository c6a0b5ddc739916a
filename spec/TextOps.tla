------------------------------ MODULE TextOps ------------------------------
(***************************************************************************)
(* Text and set mappers.                                                   *)
(*                                                                         *)
(* A row is a sequence of cells <<column, token>> with increasing columns  *)
(* (a sparse row may have holes).  Rows are taken in batches of any size,  *)
(* also none.  A batch is one flat list of tokens with their rows, and the *)
(* mappers work on that list; what they give each row must be what their   *)
(* definition gives that row alone.  tf-idf also needs the number of rows  *)
(* with a term and of all rows, summed over batches.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Tokens, Seps, Ranges, Terms, Sizes, MaxRows, MaxLen, MaxBatch, Sim

VARIABLES rows,   \* the rows still to come, each a sequence of cells
          terms,  \* and their integer terms
          conf,   \* [sep, lo, hi, vocab]
          done,   \* rows already processed, with outputs
          sizes,  \* of the batches
          df, n   \* per term the rows that have it; all rows
vars == <<rows, terms, conf, done, sizes, df, n>>

(* ------------------------------ definitions ----------------------------- *)
Toks(row) == [i \in DOMAIN row |-> row[i][2]]
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b
\* by first token, then by length
NGrams(s, c) == Concat([i \in DOMAIN s |->
  [k \in 1..Upper(0, Lower(c.hi, Len(s) - i + 1) - c.lo + 1) |-> Join(SubSeq(s, i, i + c.lo + k - 2), c.sep)]])
RECURSIVE Unique(_)
Unique(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Unique(SelectSeq(Tail(s), LAMBDA x : x # s[1]))
\* <<term, times it occurs, tokens in the row>>
Mod(x, m) == ((x % m) + m) % m
TermFreq(ts, v) == {<<t, Cardinality({i \in DOMAIN ts : Mod(ts[i], v) = t}), Len(ts)>> : t \in {Mod(ts[i], v) : i \in DOMAIN ts}}
Dense(row, width, zero) ==
  [c \in 1..width |-> IF \E i \in DOMAIN row : row[i][1] = c - 1 THEN row[CHOOSE i \in DOMAIN row : row[i][1] = c - 1][2] ELSE zero]

(* ------------------------- the flat list of a batch --------------------- *)
Flat(b) == Concat([r \in DOMAIN b |-> [i \in DOMAIN b[r] |-> <<r, b[r][i]>>]])
\* all windows of all lengths, those that cross into another row masked out
Windows(f, c) ==
  SelectSeq(Concat([i \in DOMAIN f |-> [k \in 1..c.hi - c.lo + 1 |->
              LET l == c.lo + k - 1 IN
              IF i + l - 1 <= Len(f) /\ \A j \in i..i + l - 1 : f[j][1] = f[i][1]
              THEN <<f[i][1], Join([j \in 1..l |-> f[i + j - 1][2]], c.sep)>> ELSE <<0, "">>]]),
            LAMBDA w : w[1] > 0)
\* position of each element within its segment, from the lengths of the segments before
Before(ids, s) == Len(SelectSeq(ids, LAMBDA x : x < s))
SegmentIndices(ids) == [i \in DOMAIN ids |-> i - 1 - Before(ids, ids[i])]
Regroup(f, size) ==
  LET ids == [i \in DOMAIN f |-> f[i][1]]
      pos == SegmentIndices(ids)
  IN [r \in 1..size |-> [p \in 1..Len(SelectSeq(ids, LAMBDA x : x = r)) |->
        f[CHOOSE i \in DOMAIN f : ids[i] = r /\ pos[i] = p - 1][2]]]

(* ------------------------------ the process ----------------------------- *)
\* (the argument depends on the state: TLC evaluates constant expressions only once)
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
SomeRow == LET k == Draw({0, 1, 1, 2, 3, MaxLen})
               cols == SetToSortSeq(IF Draw(1..2) = 1 THEN 0..k - 1 ELSE {c \in 0..MaxLen + 1 : Draw(1..2) = 1}, <)
           IN [i \in DOMAIN cols |-> <<cols[i], Draw(Tokens)>>]
AllRows == UNION {{s \in [1..k -> (0..MaxLen - 1) \X Tokens] : \A i \in 1..k - 1 : s[i][1] < s[i + 1][1]} : k \in 0..MaxLen}
Init == /\ rows = <<>> /\ terms = <<>> /\ conf = [sep |-> "", lo |-> 0, hi |-> 0, vocab |-> 0]
        /\ done = <<>> /\ sizes = <<>> /\ df = [t \in 0..10 |-> 0] /\ n = 0
Define == /\ conf.lo = 0
          /\ \E sep \in (IF Sim THEN {Draw(Seps)} ELSE Seps), rg \in (IF Sim THEN {Draw(Ranges)} ELSE Ranges),
                v \in (IF Sim THEN {Draw(Sizes)} ELSE Sizes) :
               conf' = [sep |-> sep, lo |-> rg[1], hi |-> rg[2], vocab |-> v]
          /\ IF Sim THEN /\ rows' = [r \in 1..Draw(0..MaxRows) |-> SomeRow]
                         /\ terms' = [r \in 1..MaxRows |-> [i \in 1..Draw(0..MaxLen) |-> Draw(Terms)]]
             ELSE \E k \in 0..MaxRows : /\ rows' \in [1..k -> AllRows]
                                        \* terms that go with the tokens
                                        /\ terms' = [r \in 1..k |-> [i \in DOMAIN rows'[r] |-> Len(rows'[r][i][2]) + r - 2]]
          /\ UNCHANGED <<done, sizes, df, n>>
Batch == /\ conf.lo > 0
         /\ IF Sim THEN rows # <<>> ELSE Len(sizes) < 3
         /\ \E k \in (IF Sim THEN {Draw(0..Lower(MaxBatch, Len(rows)))} ELSE 0..Len(rows)) :
              LET b == SubSeq(rows, 1, k)
                  toks == [r \in 1..k |-> Toks(b[r])]
                  f == Flat(toks)
                  grams == Windows(f, conf)
                  tf == [r \in 1..k |-> TermFreq(terms[Len(done) + r], conf.vocab)]
              IN /\ rows' = SubSeq(rows, k + 1, Len(rows))
                 /\ sizes' = Append(sizes, k)
                 /\ done' = done \o [r \in 1..k |-> [row |-> b[r], grams |-> Regroup(grams, k)[r],
                                                     unique |-> Unique(toks[r]), bag |-> Unique(NGrams(toks[r], conf)),
                                                     tf |-> tf[r]]]
                 /\ df' = [t \in DOMAIN df |-> df[t] + Cardinality({r \in 1..k : \E x \in tf[r] : x[1] = t})]
                 /\ n' = n + k
         /\ UNCHANGED <<terms, conf>>
Next == Define \/ Batch

(* ------------------------------ properties ------------------------------ *)
\* whatever the batch, each row gets what its definition says
RowWise == \A r \in DOMAIN done :
  /\ done[r].grams = NGrams(Toks(done[r].row), conf)
  /\ LET u == done[r].unique t == Toks(done[r].row) IN
       {u[i] : i \in DOMAIN u} = {t[i] : i \in DOMAIN t} /\ \A i, j \in DOMAIN u : i # j => u[i] # u[j]
\* one n-gram per start and length that fits
Counted == \A r \in DOMAIN done : LET len == Len(done[r].row)
                                      fits == {p \in (1..len) \X (conf.lo..conf.hi) : p[1] + p[2] - 1 <= len} IN
  Len(done[r].grams) = Cardinality(fits)
\* unigrams are the tokens
Unigrams == \A r \in DOMAIN done : conf.lo = 1 /\ conf.hi = 1 => done[r].grams = Toks(done[r].row)
\* frequencies of a row sum to one; document frequencies are those of all rows, however they were batched
Frequencies == conf.lo > 0 =>
  /\ n = Len(done)
  /\ \A r \in DOMAIN done : \A x \in done[r].tf : x[1] \in 0..conf.vocab - 1 /\ x[2] \in 1..x[3]
  /\ \A t \in 0..conf.vocab - 1 :
       df[t] = Cardinality({r \in DOMAIN done : \E i \in DOMAIN terms[r] : Mod(terms[r][i], conf.vocab) = t})
\* dense and sparse forms agree
Densified == \A r \in DOMAIN done : \A i \in DOMAIN done[r].row :
  Dense(done[r].row, MaxLen + 2, "-")[done[r].row[i][1] + 1] = done[r].row[i][2]

Emit == (conf.lo > 0 /\ rows = <<>>) => PrintT("@@" \o ToJson(
  [conf |-> conf, sizes |-> sizes, terms |-> SubSeq(terms, 1, Len(done)), df |-> [t \in 1..conf.vocab |-> df[t - 1]], n |-> n,
   rows |-> [r \in DOMAIN done |-> [row |-> done[r].row, grams |-> NGrams(Toks(done[r].row), conf), bag |-> done[r].bag,
             unique |-> done[r].unique, tf |-> SetToSeq(done[r].tf), dense |-> Dense(done[r].row, MaxLen + 2, "-")]],
   seg |-> LET ids == Flat([r \in DOMAIN done |-> Toks(done[r].row)]) IN
           [ids |-> [i \in DOMAIN ids |-> ids[i][1]], pos |-> SegmentIndices([i \in DOMAIN ids |-> ids[i][1]])]]))
=============================================================================
