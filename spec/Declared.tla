------------------------------ MODULE Declared ------------------------------
(***************************************************************************)
(* What a preprocessing function declares about its results, and what is   *)
(* published about them.                                                   *)
(*                                                                         *)
(* A function makes integer tensors (buckets, vocabulary indices, plain    *)
(* values, copies) as dense, sparse or ragged tensors, declares domains    *)
(* whose bounds are constants or values of analyzers (which may themselves *)
(* analyze the result of another analyzer), marks sparse tensors, gives    *)
(* tensors to output columns (one tensor may have several names),          *)
(* registers vocabularies and maps keys to their files.                    *)
(*                                                                         *)
(* The contract: a column has the domain that was declared last for its    *)
(* tensor, and only that; a key names the file it was mapped to last.      *)
(* `Registered` and `Mapped` follow how the implementation gets there:     *)
(* collections in the order of declaration, looked up by tensor, then by   *)
(* name; an asset map in front of a search by file name.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Cols,      \* names of output columns
          Forms, MaxTens, MaxVocs, Steps, Sim,
          Lean       \* few choices of parameters, to explore longer functions

VARIABLES log,       \* what was done, in order
          data,      \* [n: sequence of <<min, max>>, s: sequence of numbers of tokens]
          tens,      \* the tensors made so far
          coll,      \* the declarations in order: <<tensor, low, high>>
          cols,      \* column -> tensor or 0
          vocs,      \* the vocabularies made: [name, src]
          reg,       \* registrations of assets in order: <<key, vocabulary>>
          extra,     \* columns of numbers: <<"buckets", value>> or <<"size", vocabulary>>
          steps
vars == <<log, data, tens, coll, cols, vocs, reg, extra, steps>>

\* names of vocabularies with the names of their files; a scope is no part of a key
VocNames == <<[n |-> "x", f |-> "x", slash |-> FALSE], [n |-> "p/x", f |-> "p_x", slash |-> TRUE],
              [n |-> "p x", f |-> "p-x", slash |-> FALSE], [n |-> "y.z", f |-> "y_z", slash |-> FALSE],
              [n |-> "a/y.z", f |-> "a_y_z", slash |-> TRUE]>>
Keys == {"k", "x", "y.z"}
Queries == {VocNames[i].n : i \in DOMAIN VocNames} \cup Keys

\* bounds
B(b, v) == [b |-> b, v |-> v]
Val(e) == CASE e.b = "const" -> e.v
            [] e.b = "min" -> data.n[e.v][1]
            [] e.b = "max" -> data.n[e.v][2]
            [] OTHER -> data.s[e.v] - 1           \* the largest index of a vocabulary of its own source
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

T(kind, form, src, par, of) == [kind |-> kind, form |-> form, src |-> src, par |-> par, of |-> of, mark |-> FALSE]
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Srcs == IF Lean THEN {1} ELSE 1..2
Room == Len(tens) < MaxTens /\ steps < Steps
Do(what) == steps' = steps + 1 /\ log' = Append(log, what)

Init == /\ data \in IF Lean THEN {[n |-> <<<<-3, 2>>, <<0, 4>>>>, s |-> <<4, 2>>]} ELSE
                   [n : {<<a, b>> : a \in {<<-3, 2>>, <<1, 1>>}, b \in {<<-2, -1>>, <<0, 4>>}},
                     s : {<<1, 3>>, <<4, 2>>, <<2, 1>>}]
        /\ tens = <<>> /\ coll = <<>> /\ vocs = <<>> /\ reg = <<>> /\ extra = <<>> /\ steps = 0 /\ log = <<>>
        /\ cols = [c \in Cols |-> 0]

Add(t, decls) == /\ tens' = Append(tens, t)
                 /\ coll' = coll \o [i \in DOMAIN decls |-> <<Len(tens) + 1, decls[i][1], decls[i][2]>>]

MakeBucket == /\ Room
              /\ \E f \in Pick(Forms), nb \in Pick(IF Lean THEN {2} ELSE 1..3) :
                    Add(T("bucket", f, 0, <<nb>>, 0), <<<<B("const", 0), B("const", nb)>>>>)
              /\ Do([do |-> "make", i |-> Len(tens) + 1]) /\ UNCHANGED <<data, cols, vocs, reg, extra>>
\* the range of a look-up in vocabulary v
Span(size, oov, dflt) == IF oov > 0 THEN <<B("const", 0), B("const", size + oov - 1)>>
                          ELSE <<B("const", Least(0, dflt)), B("const", Most(size - 1, dflt))>>
MakeVocab == /\ Room /\ Len(vocs) < MaxVocs
             /\ \E f \in Pick(Forms), j \in Pick(Srcs), par \in Pick(IF Lean THEN {<<0, -1>>} ELSE {<<0, -1>>, <<0, 7>>, <<2, -1>>}) :
                \E w \in Pick({i \in (IF Lean THEN 1..2 ELSE DOMAIN VocNames) : \A k \in DOMAIN vocs : vocs[k].name # VocNames[i].n}) :
                   /\ Add(T("vocab", f, j, par, Len(vocs) + 1), <<Span(data.s[j], par[1], par[2])>>)
                   /\ vocs' = Append(vocs, [name |-> VocNames[w].n, src |-> j])
                   /\ reg' = Append(reg, <<IF VocNames[w].slash THEN VocNames[w].f ELSE VocNames[w].n, Len(vocs) + 1>>)
             /\ Do([do |-> "make", i |-> Len(tens) + 1]) /\ UNCHANGED <<data, cols, extra>>
MakeApply == /\ Room /\ vocs # <<>>
             /\ \E f \in Pick(Forms), j \in Pick(Srcs), k \in Pick(DOMAIN vocs), par \in Pick(IF Lean THEN {<<1, -1>>} ELSE {<<0, -1>>, <<1, -1>>}) :
                   Add(T("apply", f, j, par, k), <<Span(data.s[vocs[k].src], par[1], par[2])>>)
             /\ Do([do |-> "make", i |-> Len(tens) + 1]) /\ UNCHANGED <<data, cols, vocs, reg, extra>>
MakePlain == /\ Room
             /\ \E f \in Pick(Forms) : Add(T("plain", f, 0, <<>>, 0), <<>>)
             /\ Do([do |-> "make", i |-> Len(tens) + 1]) /\ UNCHANGED <<data, cols, vocs, reg, extra>>
Copy == /\ Room /\ tens # <<>>
        /\ \E i \in Pick(DOMAIN tens) : Add(T("copy", tens[i].form, 0, <<>>, i), <<>>)
        /\ Do([do |-> "make", i |-> Len(tens) + 1]) /\ UNCHANGED <<data, cols, vocs, reg, extra>>
Declare == /\ tens # <<>> /\ steps < Steps
           /\ \E i \in Pick(DOMAIN tens),
                 lo \in Pick(IF Lean THEN {B("min", 1)} ELSE {B("const", -4), B("const", 0), B("min", 1), B("min", 2)}),
                 hi \in Pick(IF Lean THEN {B("max", 1)} ELSE {B("const", 5), B("max", 1), B("max", 2)}
                             \cup {B("top", tens[j].src) : j \in {x \in DOMAIN tens : tens[x].kind = "vocab" /\ tens[x].par[1] = 0
                                                                                /\ tens[x].par[2] = -1}}) :
                 /\ coll' = Append(coll, <<i, lo, hi>>) /\ Do([do |-> "declare", i |-> i, lo |-> lo, hi |-> hi])
           /\ UNCHANGED <<data, tens, cols, vocs, reg, extra>>
Mark == /\ steps < Steps
        /\ \E i \in Pick({j \in DOMAIN tens : tens[j].form \in {"sparse", "cube"} /\ ~tens[j].mark} \cup {0}) :
             /\ i # 0 /\ tens' = [tens EXCEPT ![i].mark = TRUE] /\ Do([do |-> "mark", i |-> i])
        /\ UNCHANGED <<data, coll, cols, vocs, reg, extra>>
Output == /\ tens # <<>> /\ steps < Steps
          /\ \E c \in Pick(Cols), i \in Pick(DOMAIN tens) : /\ cols' = [cols EXCEPT ![c] = i]
                                                            /\ Do([do |-> "output", c |-> c, i |-> i])
          /\ UNCHANGED <<data, tens, coll, vocs, reg, extra>>
MapKey == /\ vocs # <<>> /\ steps < Steps
          /\ \E q \in Pick(IF Lean THEN {"x"} ELSE Keys), k \in Pick(DOMAIN vocs) : /\ reg' = Append(reg, <<q, k>>)
                                                    /\ Do([do |-> "map", q |-> q, k |-> k])
          /\ UNCHANGED <<data, tens, coll, cols, vocs, extra>>
\* a number asked for while the function is being built
Of(i) == SelectSeq(coll, LAMBDA d : d[1] = i)
Latest(i) == IF Of(i) = <<>> THEN <<>> ELSE LET d == Last(Of(i)) IN <<Val(d[2]), Val(d[3])>>
Ask == /\ steps < Steps /\ Len(extra) < 2
       /\ \/ \E i \in Pick({j \in DOMAIN tens : Of(j) # <<>>} \cup {0}) :
               i # 0 /\ extra' = Append(extra, [ask |-> "buckets", of |-> i, value |-> Latest(i)[2] + 1])
                      /\ Do([do |-> "buckets", i |-> i])
          \/ \E k \in Pick(DOMAIN vocs \cup {0}) :
               k # 0 /\ extra' = Append(extra, [ask |-> "size", of |-> k, value |-> data.s[vocs[k].src]])
                      /\ Do([do |-> "size", k |-> k])
       /\ UNCHANGED <<data, tens, coll, cols, vocs, reg>>

Next == MakeBucket \/ MakeVocab \/ MakeApply \/ MakePlain \/ Copy \/ Declare \/ Mark \/ Output \/ MapKey \/ Ask
        \/ (Sim /\ (MakeVocab \/ Output \/ Declare \/ MapKey))
Spec == Init /\ [][Next]_vars

(* ------------------------------- contract ------------------------------- *)
Domain(c) == IF cols[c] = 0 THEN <<>> ELSE Latest(cols[c])
File(q) ==
  LET at == {i \in DOMAIN reg : reg[i][1] = q}
      own == {k \in DOMAIN vocs : vocs[k].name = q}
  IN IF at # {} THEN reg[CHOOSE i \in at : \A j \in at : j <= i][2]
     ELSE IF own # {} THEN CHOOSE k \in own : TRUE ELSE 0

(* ---------------------- how the implementation works -------------------- *)
\* tensors with the names of the columns they are output as
NamesOf(i) == {c \in Cols : cols[c] = i}
RECURSIVE Fold(_, _)
Fold(n, m) == IF n > Len(coll) THEN m
              ELSE Fold(n + 1, [c \in Cols |-> IF c \in NamesOf(coll[n][1]) THEN <<Val(coll[n][2]), Val(coll[n][3])>> ELSE m[c]])
Registered == Fold(1, [c \in Cols |-> <<>>])
FileOf(k) == LET w == CHOOSE i \in DOMAIN VocNames : VocNames[i].n = vocs[k].name IN VocNames[w].f
RECURSIVE MapFold(_, _)
MapFold(n, q) == IF n = 0 THEN "" ELSE IF reg[n][1] = q THEN FileOf(reg[n][2]) ELSE MapFold(n - 1, q)
Sanitized(q) == IF \E i \in DOMAIN VocNames : VocNames[i].n = q
                THEN VocNames[CHOOSE i \in DOMAIN VocNames : VocNames[i].n = q].f ELSE q
Mapped(q) == LET f == IF MapFold(Len(reg), q) = "" THEN Sanitized(q) ELSE MapFold(Len(reg), q)
                 own == {k \in DOMAIN vocs : FileOf(k) = f}
             IN IF own = {} THEN 0 ELSE CHOOSE k \in own : TRUE

DomainOk == \A c \in Cols : Domain(c) = Registered[c]
\* tensors of the same name of a column never disagree, whatever the others are called
OneTensor == \A c, e \in Cols : cols[c] = cols[e] => Domain(c) = Domain(e)
FileOk == \A q \in Queries : File(q) = Mapped(q)
\* every vocabulary that nobody mapped elsewhere is found by its own name
OwnFile == \A k \in DOMAIN vocs : (\A i \in DOMAIN reg : reg[i][1] = vocs[k].name => reg[i][2] = k) => File(vocs[k].name) = k
\* the domain of a look-up holds the indices it can give
InRange == \A i \in DOMAIN tens : tens[i].kind = "vocab" /\ Len(Of(i)) = 1 =>
             LET d == Latest(i) IN d[1] <= 0 /\ d[2] >= data.s[tens[i].src] - 1

Program == [log |-> log, data |-> data, tens |-> tens, coll |-> coll, cols |-> [c \in {e \in Cols : cols[e] # 0} |-> cols[c]],
            vocs |-> vocs, reg |-> reg, extra |-> extra,
            domains |-> [c \in {e \in Cols : Domain(e) # <<>>} |-> Domain(c)],
            files |-> [q \in Queries |-> File(q)]]
Emit == (\E c \in Cols : cols[c] # 0) /\ (Sim => steps = Steps) => PrintT("@@" \o ToJson(Program))
View == <<data, tens, coll, cols, vocs, reg, extra>>
=============================================================================
