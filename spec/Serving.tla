------------------------------- MODULE Serving -------------------------------
(***************************************************************************)
(* A preprocessing function, its analysis, and serving.                    *)
(*                                                                         *)
(* A program is a list of nodes over the input columns: operations on one  *)
(* row, analyzers that reduce a whole data set (a scalar or a vocabulary), *)
(* and operations that use the result of an analyzer.  Columns hold one    *)
(* number per row ("d") or any number of them ("v"); a cell is a sequence. *)
(*                                                                         *)
(* After analysis, batches of rows are served, each by any route.  A batch *)
(* is evaluated on flat columns (all values, and how many each row has),   *)
(* possibly with some of the columns only.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Inputs,     \* kinds of the input columns, e.g. <<"d", "v">>; in simulation the set to choose from
          MaxNodes, MaxTrain, MaxServe, Values, Sim

VARIABLES kinds, prog, outs, train, res, served, pc
vars == <<kinds, prog, outs, train, res, served, pc>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Elems(s) == {s[i] : i \in DOMAIN s}

(* ------------------------------- programs ------------------------------- *)
\* node types: "d", "v" (columns), "s" (a scalar of an analyzer), "t" (a vocabulary)
RECURSIVE Type(_, _)
Type(p, i) ==
  LET e == p[i] IN
  CASE e.op = "in" -> kinds[e.a]
    [] e.op \in {"inc", "shift", "seen", "fill"} -> Type(p, e.a)
    [] e.op \in {"size", "add", "pick", "zero"} -> "d"
    [] e.op \in {"total", "top"} -> "s"
    [] OTHER -> "t"
Of(p, T) == {i \in DOMAIN p : Type(p, i) \in T}
Node(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
NodeChoices(p) ==
  LET d == Of(p, {"d"}) v == Of(p, {"v"}) s == Of(p, {"s"}) t == Of(p, {"t"}) IN
  [inc |-> {Node("inc", a, 0, 0) : a \in d \cup v},
   size |-> {Node("size", a, 0, 0) : a \in v},
   zero |-> {Node("zero", a, 0, 0) : a \in d},
   add |-> {Node("add", x[1], x[2], 0) : x \in d \X d},
   pick |-> {Node("pick", x[1], x[2], x[3]) : x \in d \X d \X d},
   fill |-> {Node("fill", x[1], x[2], 0) : x \in v \X d},
   total |-> {Node("total", a, 0, 0) : a \in d \cup v},
   top |-> {Node("top", a, 0, 0) : a \in d},
   vocab |-> {Node("vocab", a, 0, 0) : a \in d},
   shift |-> {Node("shift", x[1], x[2], 0) : x \in (d \cup v) \X s},
   seen |-> {Node("seen", x[1], x[2], 0) : x \in (d \cup v) \X t}]
Analyzers == {"total", "top", "vocab"}
\* nodes whose value a node takes, row by row; and those it needs for the analysis only
RowArgs(e) ==
  CASE e.op = "in" -> {}
    [] e.op \in {"inc", "size", "zero", "shift", "seen"} -> {e.a}
    [] e.op \in {"add", "fill"} -> {e.a, e.b}
    [] e.op = "pick" -> {e.a, e.b, e.c}
    [] OTHER -> {}
ResArgs(e) == IF e.op \in {"shift", "seen"} THEN {e.b} ELSE {}
\* the columns that the values of a node, and how many there are in a row, come from
RECURSIVE Shape(_), Deps(_), FullDeps(_)
Shape(i) == IF Type(prog, i) # "v" THEN {} ELSE IF prog[i].op = "in" THEN {prog[i].a} ELSE Shape(prog[i].a)
Deps(i) == Shape(i) \cup
  CASE prog[i].op = "in" -> {prog[i].a}
    [] prog[i].op = "size" -> Shape(prog[i].a)
    [] prog[i].op = "fill" -> Deps(prog[i].b)
    [] OTHER -> UNION {Deps(j) : j \in RowArgs(prog[i])}
\* the same, including what was analyzed on the way
FullDeps(i) == Shape(i) \cup
  CASE prog[i].op = "in" -> {prog[i].a}
    [] prog[i].op = "size" -> Shape(prog[i].a)
    [] prog[i].op = "fill" -> FullDeps(prog[i].b)
    [] OTHER -> UNION {FullDeps(j) : j \in RowArgs(prog[i]) \cup ResArgs(prog[i]) \cup (IF prog[i].op \in Analyzers THEN {prog[i].a} ELSE {})}
AnalyzeColumns == UNION {FullDeps(i) : i \in {j \in DOMAIN prog : prog[j].op \in Analyzers}}
TransformColumns == UNION {Deps(i) : i \in outs}
\* a look-up in a table has an effect: a traced function runs it, and needs what it looks up, whether it is used or not
EffectColumns == UNION {Deps(i) : i \in {j \in DOMAIN prog : prog[j].op = "seen"}}

(* ------------------------------ one row --------------------------------- *)
NA == -99   \* a value that is not known
\* what an operation does to values, given the result of its analyzer
One(op, x, r) == IF op = "inc" THEN x + 1 ELSE IF op = "zero" THEN 0 ELSE IF op = "shift" THEN x + r ELSE IF x \in r THEN 1 ELSE 0
RECURSIVE Cell(_, _, _)
Cell(i, row, rs) ==
  LET e == prog[i] IN
  IF e.op = "in" THEN row[e.a]
  ELSE LET x == Cell(e.a, row, rs) IN
    CASE e.op = "inc" -> [k \in DOMAIN x |-> x[k] + 1]
      [] e.op = "zero" -> <<0>>
      [] e.op = "size" -> <<Len(x)>>
      [] e.op = "add" -> <<x[1] + Cell(e.b, row, rs)[1]>>
      [] e.op = "fill" -> [k \in DOMAIN x |-> Cell(e.b, row, rs)[1]]
      [] e.op = "pick" -> IF Cell(e.c, row, rs)[1] > 0 THEN x ELSE Cell(e.b, row, rs)
      [] e.op = "shift" -> [k \in DOMAIN x |-> x[k] + rs[e.b]]
      [] e.op = "seen" -> [k \in DOMAIN x |-> IF x[k] \in rs[e.b] THEN 1 ELSE 0]
(* ------------------------------ analysis -------------------------------- *)
\* in program order; each analyzer over the column of its argument
RECURSIVE Results(_, _, _)
Results(i, rs, data) ==
  IF i > Len(prog) THEN rs
  ELSE LET e == prog[i]
           col == Concat([r \in DOMAIN data |-> Cell(e.a, data[r], rs)])
       IN Results(i + 1, Append(rs, CASE e.op = "total" -> Sum(col) [] e.op = "top" -> MaxOf(Elems(col))
                                      [] e.op = "vocab" -> Elems(col) [] OTHER -> 0), data)

(* ------------------------------ a batch --------------------------------- *)
Column(b, c) == [flat |-> Concat([r \in DOMAIN b |-> b[r][c]]), lens |-> [r \in DOMAIN b |-> Len(b[r][c])]]
RECURSIVE Group(_, _)
Group(flat, lens) == IF lens = <<>> THEN <<>> ELSE <<SubSeq(flat, 1, lens[1])>> \o Group(SubSeq(flat, lens[1] + 1, Len(flat)), Tail(lens))
\* a column of the batch: its values, whether they are known, how many each row has, whether that is known
RECURSIVE Flat(_, _, _)
Flat(i, b, have) ==
  LET e == prog[i] n == Len(b)
      ones == [k \in 1..n |-> 1]
      lift(x, F(_)) == [x EXCEPT !.flat = [k \in DOMAIN x.flat |-> IF x.flat[k] = NA THEN NA ELSE F(x.flat[k])]]
      row(vals, F(_)) == [flat |-> [k \in 1..n |-> IF vals THEN F(k) ELSE NA], lens |-> ones, vals |-> vals, shape |-> TRUE]
  IN
  IF e.op = "in" THEN
    IF e.a \in have THEN [flat |-> Column(b, e.a).flat, lens |-> Column(b, e.a).lens, vals |-> TRUE, shape |-> TRUE]
    ELSE IF kinds[e.a] = "d" THEN row(FALSE, LAMBDA k : 0)
    ELSE [flat |-> <<>>, lens |-> [k \in 1..n |-> 0], vals |-> FALSE, shape |-> FALSE]
  ELSE LET x == Flat(e.a, b, have) IN
    CASE e.op = "inc" -> lift(x, LAMBDA v : v + 1)
      [] e.op = "zero" -> row(x.vals, LAMBDA k : 0)
      [] e.op = "size" -> row(x.shape, LAMBDA k : x.lens[k])
      [] e.op = "add" -> LET y == Flat(e.b, b, have) IN row(x.vals /\ y.vals, LAMBDA k : x.flat[k] + y.flat[k])
      [] e.op = "fill" -> LET y == Flat(e.b, b, have) IN
                          [flat |-> Concat([k \in 1..n |-> [j \in 1..x.lens[k] |-> y.flat[k]]]), lens |-> x.lens,
                           vals |-> x.shape /\ y.vals, shape |-> x.shape]
      [] e.op = "pick" -> LET y == Flat(e.b, b, have) z == Flat(e.c, b, have) IN
                          row(x.vals /\ y.vals /\ z.vals, LAMBDA k : IF z.flat[k] > 0 THEN x.flat[k] ELSE y.flat[k])
      [] e.op = "shift" -> lift(x, LAMBDA v : v + res[e.b])
      [] e.op = "seen" -> lift(x, LAMBDA v : IF v \in res[e.b] THEN 1 ELSE 0)
Known(f) == f.vals /\ f.shape
Unknown == <<<<NA>>>>

(* ------------------------------ the process ----------------------------- *)
Draw(S) == RandomElement(S)
SomeCell(k) == IF k = "d" THEN <<Draw(Values)>> ELSE [j \in 1..Draw(0..3) |-> Draw(Values)]
SomeRow(n) == [k \in DOMAIN kinds |-> SomeCell(kinds[k])]
Cells(k) == IF k = "d" THEN {<<x>> : x \in Values} ELSE {<<>>} \cup {<<x>> : x \in Values} \cup {<<x, x + 1>> : x \in Values}
AllRows == {r \in [DOMAIN kinds -> UNION {Cells(kinds[k]) : k \in DOMAIN kinds}] : \A k \in DOMAIN kinds : r[k] \in Cells(kinds[k])}

Init == /\ kinds = IF Sim THEN <<>> ELSE Inputs
        /\ prog = IF Sim THEN <<>> ELSE [i \in DOMAIN Inputs |-> Node("in", i, 0, 0)]
        /\ outs = {} /\ train = <<>> /\ res = <<>> /\ served = <<>> /\ pc = "define"
Begin == /\ pc = "define" /\ kinds = <<>>
         /\ kinds' = Draw(Inputs)
         /\ prog' = [i \in DOMAIN kinds' |-> Node("in", i, 0, 0)]
         /\ UNCHANGED <<outs, train, res, served, pc>>
Define == /\ pc = "define" /\ kinds # <<>> /\ Len(prog) < MaxNodes + Len(kinds)
          /\ LET ch == NodeChoices(prog)
                 ops == {o \in DOMAIN ch : ch[o] # {}}
             IN IF Sim THEN prog' = Append(prog, Draw(ch[Draw(ops \ (IF Draw(1..2) = 1 THEN {"inc", "zero"} ELSE {}))]))
                ELSE \E o \in ops : \E e \in ch[o] : prog' = Append(prog, e)
          /\ UNCHANGED <<kinds, outs, train, res, served, pc>>
Columns == {i \in DOMAIN prog : Type(prog, i) \in {"d", "v"}}
Analyze == /\ pc = "define" /\ kinds # <<>> /\ (Sim => Len(prog) = MaxNodes + Len(kinds))
           /\ LET last == MaxOf(Columns) IN
              outs' = IF Sim THEN {last} \cup {i \in Columns : Draw(1..3) = 1} ELSE {last}
           /\ IF Sim THEN train' = [r \in 1..Draw(1..MaxTrain) |-> SomeRow(r)]
              ELSE train' \in [1..MaxTrain -> AllRows]
           /\ res' = Results(1, <<>>, train')
           /\ pc' = "serve"
           /\ UNCHANGED <<kinds, prog, served>>
Serve == /\ pc = "serve" /\ Len(served) < MaxServe
         /\ \E have \in (IF Sim THEN {Draw(SUBSET DOMAIN kinds \ {{}})} ELSE SUBSET DOMAIN kinds \ {{}}) :
            \E b \in (IF Sim THEN {[r \in 1..Draw(1..4) |-> IF Draw(1..2) = 1 THEN train[Draw(DOMAIN train)] ELSE SomeRow(r)]}
                      ELSE {train \o <<r>> : r \in AllRows}) :
              served' = Append(served, [rows |-> b, have |-> have,
                 out |-> [i \in outs |-> LET f == Flat(i, b, have) IN IF Known(f) THEN Group(f.flat, f.lens) ELSE Unknown]])
         /\ UNCHANGED <<kinds, prog, outs, train, res, pc>>
Next == Begin \/ Define \/ Analyze \/ Serve

(* ------------------------------ properties ------------------------------ *)
\* an instance gets what it gets alone, whatever the batch
InstanceWise == \A k \in DOMAIN served : \A i \in outs : LET s == served[k] IN
  Deps(i) \subseteq s.have => s.out[i] = [r \in DOMAIN s.rows |-> Cell(i, s.rows[r], res)]
\* exactly the outputs that the given columns suffice for
PartialExact == \A k \in DOMAIN served : \A i \in outs : LET s == served[k] IN
  (s.out[i] # Unknown) <=> Deps(i) \subseteq s.have
\* columns that are not needed do not matter
Erased(rows, needed) == [r \in DOMAIN rows |-> [c \in DOMAIN kinds |-> IF c \in needed THEN rows[r][c] ELSE IF kinds[c] = "d" THEN <<0>> ELSE <<>>]]
AnalysisSuffices == pc = "serve" => Results(1, <<>>, Erased(train, AnalyzeColumns)) = res
TransformSuffices == pc = "serve" => \A i \in outs : \A r \in DOMAIN train :
  /\ Cell(i, Erased(train, TransformColumns)[r], res) = Cell(i, train[r], res)
  /\ Cell(i, Erased(train, Deps(i))[r], res) = Cell(i, train[r], res)

Numbers(S) == SetToSortSeq(S, <)
Emit == (pc = "serve" /\ Len(served) = MaxServe) => PrintT("@@" \o ToJson(
  [kinds |-> kinds, prog |-> prog, outs |-> Numbers(outs), train |-> train,
   types |-> [i \in DOMAIN prog |-> Type(prog, i)],
   trained |-> [o \in 1..Cardinality(outs) |-> [r \in DOMAIN train |-> Cell(Numbers(outs)[o], train[r], res)]],
   deps |-> [o \in 1..Cardinality(outs) |-> Numbers(Deps(Numbers(outs)[o]))],
   effects |-> Numbers(EffectColumns), analyze |-> Numbers(AnalyzeColumns), transform |-> Numbers(TransformColumns),
   served |-> [k \in DOMAIN served |-> [rows |-> served[k].rows, have |-> Numbers(served[k].have),
      all |-> [o \in 1..Cardinality(outs) |-> [r \in DOMAIN served[k].rows |-> Cell(Numbers(outs)[o], served[k].rows[r], res)]]]]]))
=============================================================================
