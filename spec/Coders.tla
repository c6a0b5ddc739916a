------------------------------- MODULE Coders -------------------------------
(***************************************************************************)
(* Coders of instances.                                                    *)
(*                                                                         *)
(* A coder object is made for a schema (a sequence of columns) and encodes *)
(* one instance after another.  It keeps one reusable example, with a      *)
(* handler per column that rewrites its part of it, and it may be copied   *)
(* (pickled) at any time.  An instance with a bad value makes the encoder  *)
(* fail half way, with the other part of the example left as it was.       *)
(* The CSV coder keeps a list of strings; fields and, within the fields of *)
(* multivalent columns, values are quoted if needed.  A line that can't be *)
(* written leaves nothing behind.                                          *)
(*                                                                         *)
(* A column: [kind, ty, size, multi]; kind "fixed" has exactly size        *)
(* values, "var" any number.  A value of a column: <<"vals", v1, v2..>>,   *)
(* <<"none">> (missing), <<"bad">> (of another type), <<"bytes">> (one     *)
(* string that is not text) or <<"lone">> (one text that has no bytes: a   *)
(* lone surrogate).  Values are texts (sequences of characters)   *)
(* if ty = "text", and numbers of entries in a pool otherwise.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemas,    \* set of schemas (in simulation: the largest number of columns)
          MaxLen,     \* largest number of values of a column
          Steps,      \* number of instances in a behaviour
          Texts,      \* set of sequences of texts, for the laws of CSV
          Sim

VARIABLES schema, cache, log, todo
vars == <<schema, cache, log, todo>>

(* ---------------------------------- CSV --------------------------------- *)
\* characters: 1 the delimiter, 2 the secondary delimiter, 3 the quote, 4 and 8 end a line; others are plain
Quote == 3
Newline == {4, 8}
RECURSIVE Doubled(_)
Doubled(t) == IF t = <<>> THEN <<>> ELSE (IF Head(t) = Quote THEN <<Quote, Quote>> ELSE <<Head(t)>>) \o Doubled(Tail(t))
Has(t, c) == \E i \in DOMAIN t : t[i] = c
Field(t, delim, alone) ==
  IF Has(t, delim) \/ Has(t, Quote) \/ (\E n \in Newline : Has(t, n)) \/ (alone /\ t = <<>>)
  THEN <<Quote>> \o Doubled(t) \o <<Quote>> ELSE t
RECURSIVE Row(_, _, _)
Row(ts, delim, alone) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Len(ts) = 1 THEN Field(ts[1], delim, alone)
  ELSE Field(ts[1], delim, FALSE) \o <<delim>> \o Row(Tail(ts), delim, FALSE)
Written(ts, delim) == Row(ts, delim, Len(ts) = 1)

\* a reader; state: "start" of a field, "plain", "quoted", "after" a quote in a quoted field
RECURSIVE Read(_, _, _, _, _)
Read(t, delim, state, field, fields) ==
  IF t = <<>> THEN IF state = "start" /\ fields = <<>> THEN <<>> ELSE Append(fields, field)
  ELSE LET c == Head(t)  r == Tail(t) IN
    CASE state \in {"start", "plain"} /\ c = delim -> Read(r, delim, "start", <<>>, Append(fields, field))
      [] state = "start" /\ c = Quote -> Read(r, delim, "quoted", <<>>, fields)
      [] state \in {"start", "plain"} /\ c \in Newline -> Append(fields, field)
      [] state \in {"start", "plain"} -> Read(r, delim, "plain", Append(field, c), fields)
      [] state = "quoted" /\ c = Quote -> Read(r, delim, "after", field, fields)
      [] state = "quoted" -> Read(r, delim, "quoted", Append(field, c), fields)
      [] state = "after" /\ c = Quote -> Read(r, delim, "quoted", Append(field, c), fields)
      [] state = "after" /\ c = delim -> Read(r, delim, "start", <<>>, Append(fields, field))
      [] OTHER -> Append(fields, field)
Parsed(t, delim) == Read(t, delim, "start", <<>>, <<>>)

\* any sequence of texts can be written and read back, also as a cell of another row
CsvLaw == \A ts \in Texts :
  /\ Parsed(Written(ts, 1), 1) = ts
  /\ LET cell == Written(ts, 2)  row == Parsed(Written(<<<<5>>, cell, <<>>>>, 1), 1)
     IN row = <<<<5>>, cell, <<>>>> /\ Parsed(row[2], 2) = ts

(* -------------------------------- coding -------------------------------- *)
IsVals(v) == v[1] = "vals"
Vals(v) == Tail(v)
Size(v) == IF v[1] \in {"bytes", "lone"} THEN 1 ELSE Len(v) - 1
Held(v) == v[1] \in {"vals", "bytes"}
\* how a column of an instance ends up in an example: missing, values, or a failure
Example(c, v) ==
  IF v[1] \in {"bad", "lone"} \/ (c.kind = "fixed" /\ ~(Held(v) /\ Size(v) = c.size)) THEN <<"error">> ELSE v
\* and in a line
Cell(c, v) ==
  IF v[1] = "bad" THEN <<"any">>
  ELSE IF v[1] \in {"bytes", "lone"} \/ (c.kind = "fixed" /\ ~(Held(v) /\ Size(v) = c.size)) THEN <<"error">>
  ELSE IF c.multi THEN IF Held(v) THEN v ELSE <<"error">>
  ELSE IF Size(v) > 1 THEN <<"error">> ELSE v

Fails(f(_, _), s, inst) == \E i \in DOMAIN s : f(s[i], inst[i])[1] = "error"
FirstFail(f(_, _), s, inst) == CHOOSE i \in DOMAIN s : f(s[i], inst[i])[1] = "error" /\ \A j \in 1..i - 1 : f(s[j], inst[j])[1] # "error"
Encoded(f(_, _), s, inst) == [i \in DOMAIN s |-> f(s[i], inst[i])]

(* ------------------------------ the process ----------------------------- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
One(c) == IF c.ty = "text" THEN {<<>>, <<1>>, <<3>>} ELSE 1..2
Values(c) == {<<"none">>, <<"bad">>} \cup (IF c.ty = "text" THEN {<<"bytes">>, <<"lone">>} ELSE {})
             \cup {<<"vals">> \o s : s \in UNION {[1..n -> One(c)] : n \in 0..MaxLen}}
Instances(s) == IF Len(s) = 1 THEN {<<v>> : v \in Values(s[1])} ELSE Values(s[1]) \X Values(s[2])
\* at random
Draw(S) == RandomElement(S)
SomeText(n) == [i \in 1..n |-> Draw(1..8)]
SomeValues(c, n) == <<"vals">> \o [i \in 1..n |-> IF c.ty = "text" THEN SomeText(Draw({0, 1, 1, 2, 3})) ELSE Draw(1..12)]
SomeValue(c, k) ==
  IF k = 1 /\ c.kind = "var" THEN <<"none">>
  ELSE IF k = 2 THEN Draw({<<"none">>, <<"bad">>} \cup (IF c.ty = "text" THEN {<<"bytes">>, <<"lone">>} ELSE {}))
  ELSE IF c.kind = "fixed" /\ k > 3 THEN SomeValues(c, c.size)
  ELSE SomeValues(c, Draw(0..(IF c.multi \/ k = 3 THEN MaxLen ELSE 1)))
RECURSIVE Drawn(_, _)
Drawn(s, i) == IF i > Len(s) THEN <<>> ELSE <<SomeValue(s[i], Draw(1..12))>> \o Drawn(s, i + 1)
SomeColumn(kind) ==
  LET n == IF kind = "fixed" THEN Draw({1, 1, 2, 4}) ELSE 0
  IN [kind |-> kind, ty |-> Draw({"text", "int", "float"}), size |-> n, multi |-> n > 1 \/ Draw({TRUE, FALSE})]
SomeSchema(n) == [i \in 1..n |-> SomeColumn(Draw({"fixed", "var"}))]
Fresh(s) == [i \in DOMAIN s |-> <<"none">>]

Init == schema = <<>> /\ cache = <<>> /\ log = <<>> /\ todo = Steps
Make == /\ schema = <<>> /\ \E s \in (IF Sim THEN {SomeSchema(Draw(Schemas))} ELSE Schemas) : schema' = s /\ cache' = Fresh(s)
        /\ UNCHANGED <<log, todo>>
\* handlers run in order of the columns and overwrite their part; the first failure ends the run
Encode == /\ schema # <<>> /\ todo > 0 /\ todo' = todo - 1
          /\ \E inst \in (IF Sim THEN {Drawn(schema, 1)} ELSE Instances(schema)) :
               LET n == IF Fails(Example, schema, inst) THEN FirstFail(Example, schema, inst) - 1 ELSE Len(schema)
                   new == [i \in DOMAIN schema |-> IF i <= n THEN Example(schema[i], inst[i]) ELSE cache[i]]
               IN /\ cache' = new
                  /\ log' = Append(log, [inst |-> inst,
                              example |-> IF n = Len(schema) THEN new ELSE <<>>,
                              line |-> IF Fails(Cell, schema, inst) THEN <<>> ELSE Encoded(Cell, schema, inst)])
          /\ UNCHANGED schema
\* a copy starts with an empty example
Copy == /\ schema # <<>> /\ todo > 0 /\ Len(log) > 0 /\ log[Len(log)].inst # <<>>
        /\ cache' = Fresh(schema) /\ todo' = todo - 1
        /\ log' = Append(log, [inst |-> <<>>, example |-> <<>>, line |-> <<>>])
        /\ UNCHANGED schema
Next == Make \/ Encode \/ Copy

(* ------------------------------ properties ------------------------------ *)
\* what comes out depends on the instance only, and holds all of it
Independent == \A k \in DOMAIN log : log[k].inst # <<>> =>
  log[k].example = (IF Fails(Example, schema, log[k].inst) THEN <<>> ELSE Encoded(Example, schema, log[k].inst))
Lossless == \A k \in DOMAIN log : LET l == log[k] IN
  /\ l.example # <<>> => l.example = l.inst
  /\ l.line # <<>> => \A i \in DOMAIN schema : l.line[i][1] # "any" => l.line[i] = l.inst[i]

Emit == (todo = 0) => PrintT("@@" \o ToJson([schema |-> schema, log |-> log]))
=============================================================================
