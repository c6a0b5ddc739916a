------------------------------ MODULE Schemas ------------------------------
(***************************************************************************)
(* Feature specifications, schemas and serialised data.                    *)
(*                                                                         *)
(* A feature is [name, kind, ty, dims, cols, parts, sorted, dom]:          *)
(*   fixed   dims: its shape                          cols: its name       *)
(*   var     any number of values                     cols: its name       *)
(*   sparse  dims: sizes (-1 unknown)                 cols: indices, value *)
(*   ragged  parts: per inner dimension 0 (row lengths) or a fixed length  *)
(*                                        cols: row lengths.., value       *)
(* A schema keeps columns apart from the tensors made of them.  Schemas    *)
(* are written to and read from paths.  Rows of data become columns and    *)
(* are read back with the feature specification that a schema gives.       *)
(* Outputs of a preprocessing function have a schema inferred from their   *)
(* type, static shape and annotations.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Specs,    \* set of sequences of features; in simulation: numbers of features
          Paths, Steps, NRows, Sim

VARIABLES spec, rows, disk, log, todo
vars == <<spec, rows, disk, log, todo>>

(* ------------------------------- conversion ----------------------------- *)
ColsOf(f) == {f.cols[i] : i \in DOMAIN f.cols}
Value(f) == f.cols[Len(f.cols)]
\* a schema: columns [name, ty, shape, dom] (shape <<-2>>: none) and tensors
Column(f, c) ==
  IF c = Value(f) THEN [name |-> c, ty |-> f.ty, shape |-> IF f.kind = "fixed" THEN f.dims ELSE <<-2>>, dom |-> f.dom]
  ELSE [name |-> c, ty |-> "int", shape |-> <<-2>>,
        dom |-> IF f.kind = "sparse" THEN LET d == f.dims[CHOOSE i \in DOMAIN f.cols : f.cols[i] = c]
                                          IN IF d = -1 THEN <<0, 0>> ELSE <<1, d>>
                ELSE <<0, 0>>]
ToSchema(s) ==
  [columns |-> UNION {{Column(s[i], c) : c \in ColsOf(s[i])} : i \in DOMAIN s},
   tensors |-> {[name |-> s[i].name, kind |-> s[i].kind, cols |-> s[i].cols, dims |-> s[i].dims, parts |-> s[i].parts,
                 sorted |-> s[i].sorted] : i \in {j \in DOMAIN s : s[j].kind \in {"sparse", "ragged"}}}]
\* every column that is no part of a tensor is a feature of its own
FromSchema(m) ==
  LET used == UNION {{t.cols[i] : i \in DOMAIN t.cols} : t \in m.tensors}
      col(c) == CHOOSE x \in m.columns : x.name = c
      alone == {c \in m.columns : c.name \notin used}
  IN {[name |-> c.name, kind |-> IF c.shape = <<-2>> THEN "var" ELSE "fixed", ty |-> c.ty,
       dims |-> IF c.shape = <<-2>> THEN <<>> ELSE c.shape, cols |-> <<c.name>>, parts |-> <<>>, sorted |-> FALSE,
       dom |-> c.dom] : c \in alone}
     \cup {[name |-> t.name, kind |-> t.kind, ty |-> col(t.cols[Len(t.cols)]).ty, dims |-> t.dims, cols |-> t.cols,
            parts |-> t.parts, sorted |-> t.sorted, dom |-> col(t.cols[Len(t.cols)]).dom] : t \in m.tensors}

(* ----------------------------------- data -------------------------------- *)
\* a row of a fixed or var feature is a sequence of values; of a sparse feature a sequence of entries
\* <<index.., value>>; of a ragged feature sequences nested as deep as there are dimensions
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Lengths(ss) == [i \in DOMAIN ss |-> Len(ss[i])]
RECURSIVE Level(_, _)
Level(v, n) == IF n = 1 THEN v ELSE Concat(Level(v, n - 1))
Ls(f) == SelectSeq([i \in DOMAIN f.parts |-> i], LAMBDA i : f.parts[i] = 0)
Columns(f, v) ==
  CASE f.kind \in {"fixed", "var"} -> <<v>>
    [] f.kind = "sparse" -> [c \in DOMAIN f.cols |-> [i \in DOMAIN v |-> v[i][c]]]
    [] OTHER -> [c \in DOMAIN Ls(f) |-> Lengths(Level(v, Ls(f)[c]))] \o <<Level(v, Len(f.parts) + 1)>>
RECURSIVE Group(_, _)
Group(flat, lens) ==
  IF lens = <<>> THEN <<>> ELSE <<SubSeq(flat, 1, lens[1])>> \o Group(SubSeq(flat, lens[1] + 1, Len(flat)), Tail(lens))
Even(flat, k) == [i \in 1..Len(flat) \div k |-> SubSeq(flat, (i - 1) * k + 1, i * k)]
RECURSIVE Nest(_, _, _, _)
Nest(f, cols, n, flat) ==
  IF n = 0 THEN flat
  ELSE Nest(f, cols, n - 1,
            IF f.parts[n] > 0 THEN Even(flat, f.parts[n])
            ELSE Group(flat, cols[CHOOSE c \in DOMAIN Ls(f) : Ls(f)[c] = n]))
Restored(f, cols) ==
  CASE f.kind \in {"fixed", "var"} -> cols[1]
    [] f.kind = "sparse" -> [i \in DOMAIN cols[1] |-> [c \in DOMAIN cols |-> cols[c][i]]]
    [] OTHER -> Nest(f, cols, Len(f.parts), cols[Len(cols)])

(* -------------------------------- inference ----------------------------- *)
\* an output is a feature (as its tensor is) with an annotation: 0 none, 1 true sparse, 2 a shape (one larger)
Num(c) == IF c = 1 THEN "1" ELSE IF c = 2 THEN "2" ELSE "3"
Idx(c) == IF c = 1 THEN "0" ELSE IF c = 2 THEN "1" ELSE "2"
Inferred(o) ==
  LET f == o.f IN
  CASE f.kind \in {"fixed", "var"} -> [f EXCEPT !.sorted = FALSE]
    [] f.kind = "sparse" ->
         IF Len(f.dims) = 1 /\ o.ann = 0 THEN [f EXCEPT !.kind = "var", !.dims = <<>>, !.cols = <<f.name>>, !.sorted = FALSE]
         ELSE [f EXCEPT !.cols = [c \in DOMAIN f.cols |-> IF c = Len(f.cols) THEN f.name \o "$sparse_values"
                                                          ELSE f.name \o "$sparse_indices_" \o Idx(c)],
                        !.sorted = TRUE,
                        \* inputs are fed: their sizes are not known while the schema is inferred
                        !.dims = [d \in DOMAIN f.dims |-> IF o.ann # 2 THEN -1 ELSE IF f.dims[d] = -1 THEN 5 ELSE f.dims[d] + 1]]
    [] OTHER ->
         [f EXCEPT !.cols = [c \in DOMAIN f.cols |-> IF c = Len(f.cols) THEN f.name \o "$ragged_values"
                                                     ELSE f.name \o "$row_lengths_" \o Num(c)]]
\* what the row looks like with the inferred specification
Seen(o, v) == IF o.f.kind = "sparse" /\ Inferred(o).kind = "var" THEN [i \in DOMAIN v |-> v[i][2]] ELSE v

(* ------------------------------ the process ----------------------------- *)
Draw(S) == RandomElement(S)
Tys == {"int", "float", "text"}
Name(n, i) == n \o ToString(i)
SomeDom(ty) == IF Draw(1..2) = 1 THEN <<0, 0>>
               ELSE IF ty = "text" THEN <<2, Draw(1..3)>> ELSE IF ty = "int" THEN <<1, Draw(1..5)>> ELSE <<3, Draw(1..3)>>
SomeFeature(i, kind, ty) ==
  LET base == [name |-> Name("f", i), kind |-> kind, ty |-> ty, dims |-> <<>>, cols |-> <<Name("f", i)>>, parts |-> <<>>,
               sorted |-> FALSE, dom |-> SomeDom(ty)]
  IN CASE kind = "fixed" -> [base EXCEPT !.dims = Draw({<<>>, <<1>>, <<3>>, <<2, 2>>, <<1, 2, 1>>, <<2, 3>>})]
       [] kind = "var" -> base
       [] kind = "sparse" ->
            LET n == Draw({1, 1, 2, 3}) IN
            [base EXCEPT !.dims = [d \in 1..n |-> Draw({-1, 3, 4})],
                         !.cols = [d \in 1..n |-> Name("f", i) \o Name("idx", d)] \o <<Name("val", i)>>,
                         !.sorted = Draw({TRUE, FALSE})]
       [] OTHER ->
            LET parts == Draw({<<>>, <<0>>, <<2>>, <<0, 0>>, <<0, 2>>, <<2, 3>>, <<0, 0, 1>>, <<0, 0, 0>>})
                nl == Len(SelectSeq(parts, LAMBDA p : p = 0))
            IN [base EXCEPT !.parts = parts, !.cols = [d \in 1..nl |-> Name("f", i) \o Name("len", d)] \o <<Name("val", i)>>]
SomeSpec(n) == [i \in 1..n |-> SomeFeature(i, Draw({"fixed", "var", "sparse", "ragged"}), Draw(Tys))]

RECURSIVE Size(_)
Size(ds) == IF ds = <<>> THEN 1 ELSE Head(ds) * Size(Tail(ds))
RECURSIVE SomeNested(_, _)
SomeNested(parts, n) ==
  [j \in 1..n |-> IF parts = <<>> THEN Draw(1..6)
                  ELSE SomeNested(Tail(parts), IF Head(parts) > 0 THEN Head(parts) ELSE Draw(0..3))]
\* indices in order, each once; the second argument is what is known to come first
SomeEntries(dims) ==
  LET space == {ix \in [DOMAIN dims -> 0..3] : \A d \in DOMAIN dims : dims[d] = -1 \/ ix[d] < dims[d]}
      chosen == {ix \in space : Draw(1..(IF Len(dims) = 1 THEN 2 ELSE 8)) = 1}
      less(a, b) == \E d \in DOMAIN dims : a[d] < b[d] /\ \A e \in 1..d - 1 : a[e] = b[e]
      s == SetToSortSeq(chosen, less)
  IN [i \in DOMAIN s |-> s[i] \o <<Draw(1..6)>>]
SomeRow(f) ==
  CASE f.kind = "fixed" -> [i \in 1..Size(f.dims) |-> Draw(1..6)]
    [] f.kind = "var" -> [i \in 1..Draw(0..3) |-> Draw(1..6)]
    [] f.kind = "sparse" -> SomeEntries(f.dims)
    [] OTHER -> SomeNested(f.parts, Draw(0..3))
\* small rows, for the exhaustive check
AllNested(parts) ==
  CASE parts = <<>> -> {<<>>, <<1>>, <<2, 1>>}
    [] Len(parts) = 1 /\ parts[1] = 0 -> UNION {[1..n -> {<<>>, <<1>>, <<2, 1>>}] : n \in 0..2}
    [] Len(parts) = 1 -> UNION {[1..n -> [1..parts[1] -> {1, 2}]] : n \in 0..2}
    [] parts[2] = 0 -> UNION {[1..n -> {<<>>, <<<<>>>>, <<<<1>>, <<>>>>, <<<<2, 1>>>>}] : n \in 0..2}
    [] OTHER -> UNION {[1..n -> {<<>>, <<[k \in 1..parts[2] |-> k]>>, <<[k \in 1..parts[2] |-> 1], [k \in 1..parts[2] |-> 2]>>}] : n \in 0..2}
AllRows(f) ==
  CASE f.kind = "fixed" -> [1..Size(f.dims) -> {1, 2}]
    [] f.kind = "var" -> AllNested(<<>>)
    [] f.kind = "sparse" -> {<<>>, <<[c \in DOMAIN f.cols |-> 1]>>, <<[c \in DOMAIN f.cols |-> 0], [c \in DOMAIN f.cols |-> 2]>>}
    [] OTHER -> AllNested(f.parts)

Init == spec = <<>> /\ rows = <<>> /\ disk = [p \in Paths |-> <<>>] /\ log = <<>> /\ todo = Steps
Define == /\ spec = <<>>
          /\ \E s \in (IF Sim THEN {SomeSpec(Draw(Specs))} ELSE Specs) :
               /\ spec' = s
               /\ IF Sim THEN rows' = [r \in 1..NRows |-> [i \in DOMAIN s |-> SomeRow(s[i])]]
                  ELSE \E v \in AllRows(s[1]) : rows' = <<<<v>>>>
          /\ UNCHANGED <<disk, log, todo>>
\* other features come and go before a schema is written
Write == /\ spec # <<>> /\ todo > 0 /\ todo' = todo - 1
         /\ \E p \in (IF Sim THEN {Draw(Paths)} ELSE Paths), lo \in (IF Sim THEN {Draw(DOMAIN spec)} ELSE DOMAIN spec) :
              /\ disk' = [disk EXCEPT ![p] = <<ToSchema(SubSeq(spec, lo, Len(spec)))>>]
              /\ log' = Append(log, [op |-> "write", path |-> p, from |-> lo])
         /\ UNCHANGED <<spec, rows>>
LastWrite(p) == LET S == {k \in DOMAIN log : log[k].op = "write" /\ log[k].path = p}
                IN IF S = {} THEN 0 ELSE log[CHOOSE k \in S : \A j \in S : j <= k].from
Read == /\ spec # <<>> /\ todo > 0 /\ todo' = todo - 1
        /\ \E p \in (IF Sim THEN {Draw(Paths)} ELSE Paths) :
             log' = Append(log, [op |-> "read", path |-> p, from |-> LastWrite(p)])
        /\ UNCHANGED <<spec, rows, disk>>
Next == Define \/ Write \/ Read

(* ------------------------------ properties ------------------------------ *)
Set(s) == {s[i] : i \in DOMAIN s}
RoundTrip == FromSchema(ToSchema(spec)) = Set(spec)
Stored == \A p \in Paths : disk[p] # <<>> =>
  /\ LastWrite(p) > 0
  /\ FromSchema(disk[p][1]) = Set(SubSeq(spec, LastWrite(p), Len(spec)))
DataRoundTrip == \A r \in DOMAIN rows : \A i \in DOMAIN spec : LET v == rows[r][i] IN
  /\ Restored(spec[i], Columns(spec[i], v)) = v
  /\ \A a \in 0..2 : LET o == [f |-> spec[i], ann |-> a] IN
       /\ Restored(Inferred(o), Columns(Inferred(o), Seen(o, v))) = Seen(o, v)
       /\ Len(Columns(Inferred(o), Seen(o, v))) = Len(Inferred(o).cols)
\* all outputs together still have distinct columns
Distinct == \A a \in 0..2 : \A i, j \in DOMAIN spec :
  i # j => ColsOf(Inferred([f |-> spec[i], ann |-> a])) \cap ColsOf(Inferred([f |-> spec[j], ann |-> a])) = {}

Emit == (todo = 0) => PrintT("@@" \o ToJson(
  [spec |-> spec, rows |-> rows, log |-> log, schema |-> ToSchema(spec),
   columns |-> [r \in DOMAIN rows |-> [i \in DOMAIN spec |-> Columns(spec[i], rows[r][i])]],
   outputs |-> [i \in DOMAIN spec |-> [a \in 1..3 |-> Inferred([f |-> spec[i], ann |-> a - 1])]],
   seen |-> [r \in DOMAIN rows |-> [i \in DOMAIN spec |-> [a \in 1..3 |-> Seen([f |-> spec[i], ann |-> a - 1], rows[r][i])]]]]))
=============================================================================
