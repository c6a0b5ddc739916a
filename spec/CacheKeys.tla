------------------------------- MODULE CacheKeys -----------------------------
(***************************************************************************)
(* A preprocessing function being edited, and the cache entry keys of its  *)
(* one analyzer of interest.                                               *)
(*                                                                         *)
(* The analyzer is described by its kind and parameters, its name, and its *)
(* input: a source feature followed by a chain of ops.  `Partial` is the   *)
(* meaning of its partial result: what two versions of the function must   *)
(* agree on to be allowed to share a cache entry.  `others` are unrelated  *)
(* analyzers in the same function, which must not matter.                  *)
(*                                                                         *)
(* Every version reached is emitted with its meaning; the implementation   *)
(* must give equal keys to equal versions (whatever the others) and        *)
(* distinct keys to versions with distinct meanings.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chain,     \* length of the chain of ops explored
          Kinds, Names, Sim, Steps

VARIABLES cur,       \* the description of the analyzer
          others,    \* number of unrelated analyzers
          keys,      \* meaning -> key of the abstract implementation
          edits

vars == <<cur, others, keys, edits>>

Numeric == {"mean", "var", "min", "max", "sum", "size", "quantiles", "covariance", "histogram"}
Stringy == {"vocab", "lvocab", "count", "approx"}

Op(o, c) == [o |-> o, c |-> c]
NumOps == {Op(o, c) : o \in {"add", "sub", "rsub", "mul", "div", "max", "pow", "clip", "where"}, c \in {2, 3}}
          \cup {Op(o, 0) : o \in {"log", "exp", "neg", "abs", "sqrt", "square", "double", "round"}}
          \cup {Op(o, c) : o \in {"addsrc", "subsrc", "mulsrc"}, c \in {1, 2}}
          \cup {Op(o, c) : o \in {"fnlog", "fnexp", "fnadd"}, c \in {2, 3}}
          \cup {Op(o, c) : o \in {"cond", "lookup", "lookupdefault", "file", "gather"}, c \in {1, 2}}
          \* values that live outside of the traced function, which captures them
          \cup {Op(o, c) : o \in {"capconst", "capfn", "capcond", "capvar", "captab"}, c \in {1, 2}}
StrOps == {Op(o, 0) : o \in {"lower", "upper", "strip", "reverse"}}
          \cup {Op(o, c) : o \in {"join", "joinleft", "regex", "replaceto", "substr", "strlookup", "capstr", "capjoin"}, c \in {1, 2}}
Ops(kind) == IF kind \in Numeric THEN NumOps ELSE StrOps

Params(kind) ==
  CASE kind \in {"mean", "var", "min", "max", "sum"} -> {<<r, 0, 0>> : r \in {0, 1}}
    [] kind = "quantiles" -> {<<r, e, w>> : r \in {0, 1}, e \in {1, 2}, w \in {0, 1, 2}}
    [] kind = "histogram" -> {<<b, 0, 0>> : b \in {2, 3}}
    [] kind = "vocab" -> {<<0, 0, w>> : w \in {0, 1, 2}}
    [] kind = "lvocab" -> {<<l, 0, w>> : l \in {1, 2}, w \in {0, 1}}
    [] kind = "approx" -> {<<k, 0, w>> : k \in {10, 20}, w \in {0, 1}}
    [] OTHER -> {<<0, 0, 0>>}

\* fn* ops are the same computation inside a tf.function
CanonOp(op) == IF op.o = "fnlog" \/ op.o = "fnexp"
               THEN Op(op.o, 0) ELSE op
RECURSIVE Canon(_)
Canon(ops) == IF ops = <<>> THEN <<>> ELSE <<CanonOp(Head(ops))>> \o Canon(Tail(ops))

\* mean and variance keep the same moments, minimum and maximum the same pair
PartialKind(kind) == IF kind \in {"mean", "var"} THEN "moments"
                     ELSE IF kind \in {"min", "max"} THEN "extremes" ELSE kind
Partial(d) == <<PartialKind(d.kind), d.par, d.name, d.src, Canon(d.ops)>>

Start == {[kind |-> k, par |-> p, name |-> n, src |-> s, ops |-> <<>>] :
            k \in Kinds, p \in UNION {Params(k) : k \in Kinds}, n \in Names, s \in {1, 2}}
Valid(d) == d.par \in Params(d.kind)

Init == /\ cur \in {d \in Start : Valid(d)}
        /\ others = 0 /\ edits = 0
        /\ keys = {<<Partial(cur), 1>>}

Note(d) == keys' = IF \E k \in keys : k[1] = Partial(d) THEN keys
                   ELSE keys \cup {<<Partial(d), Cardinality(keys) + 1>>}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Become(d) == /\ cur' = d /\ Note(d) /\ edits' = edits + 1

AddOp == /\ Len(cur.ops) < Chain
         /\ \E o \in Pick(Ops(cur.kind)) : Become([cur EXCEPT !.ops = Append(@, o)])
         /\ UNCHANGED others
ChangeOp == /\ Sim /\ cur.ops # <<>>
            /\ \E i \in DOMAIN cur.ops, o \in Pick(Ops(cur.kind)) : Become([cur EXCEPT !.ops[i] = o])
            /\ UNCHANGED others
ChangeSource == Sim /\ Become([cur EXCEPT !.src = 3 - @]) /\ UNCHANGED others
ChangeName == Sim /\ (\E n \in Names \ {cur.name} : Become([cur EXCEPT !.name = n])) /\ UNCHANGED others
ChangeParams == Sim /\ (\E p \in Pick(Params(cur.kind)) : Become([cur EXCEPT !.par = p])) /\ UNCHANGED others
ChangeKind == /\ Sim
              /\ \E k \in Pick({x \in Kinds : (x \in Numeric) <=> (cur.kind \in Numeric)}) :
                   \E p \in Pick(Params(k)) : Become([cur EXCEPT !.kind = k, !.par = p])
              /\ UNCHANGED others
AddOther == others < 3 /\ Sim /\ others' = others + 1 /\ edits' = edits + 1 /\ UNCHANGED <<cur, keys>>

Next == edits < Steps /\ (AddOp \/ ChangeOp \/ ChangeSource \/ ChangeName \/ ChangeParams
                          \/ ChangeKind \/ AddOther)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* keys are a function of the meaning, and injective
Functional == \A a, b \in keys : (a[1] = b[1]) <=> (a[2] = b[2])
TypeOk == Valid(cur) /\ others \in 0..3

View == <<cur, others>>
Emit == PrintT("@@" \o ToJson([d |-> cur, others |-> others, partial |-> ToString(Partial(cur))]))
=============================================================================
