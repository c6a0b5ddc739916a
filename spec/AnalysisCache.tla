----------------------------- MODULE AnalysisCache ---------------------------
(***************************************************************************)
(* Analysis with a cache of per-dataset partial results, over a history of *)
(* runs.                                                                   *)
(*                                                                         *)
(* A program is a set of analysis units.  A unit is a pair of stages:      *)
(*   first stage   reads the raw data; its partial result per dataset can  *)
(*                 be cached iff the unit is in Cacheable                  *)
(*   second stage  (units in Nested) reads the data again, transformed by  *)
(*                 the result of the first stage; never cached             *)
(*                                                                         *)
(* A partial result is the bag of rows it was computed from, so a plan     *)
(* that forgets, repeats or confuses a dataset or a unit gives a wrong bag.*)
(* `store` holds every entry that earlier runs emitted and that was not    *)
(* lost since.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Datasets, Units, Cacheable, Nested, NoData, MaxRuns, Sim,
          Withhold   \* leave out what the framework reports as not needed

VARIABLES store,   \* set of [d, u, bag]
          log, runs

vars == <<store, log, runs>>

\* The rows of a dataset are its own, so a bag is a function dataset -> count.
Rows(d, u) == [x \in Datasets |-> IF x = d THEN 1 ELSE 0]
EmptyBag == [x \in Datasets |-> 0]
Add(a, b) == [x \in Datasets |-> a[x] + b[x]]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN EmptyBag
          ELSE LET e == CHOOSE x \in S : TRUE IN Add(e.bag, Sum(S \ {e}))
Whole(ds) == [x \in Datasets |-> IF x \in ds THEN 1 ELSE 0]

Keys(S) == {<<e.d, e.u>> : e \in S}
Lookup(S, d, u) == {e \in S : e.d = d /\ e.u = u}

\* What a run needs to read, given the supplied entries.
Reads(prog) == prog \ NoData
Needed(ds, unc, prog, sup) ==
  {d \in ds : \E u \in Reads(prog) :
      \/ u \notin Cacheable \/ u \in Nested \/ d \in unc
      \/ Lookup(sup, d, u) = {}}

\* The plan of a run: one partial result per unit and dataset.
Partial(ds, unc, sup, d, u) ==
  IF u \in Cacheable /\ d \notin unc /\ Lookup(sup, d, u) # {}
  THEN (CHOOSE e \in Lookup(sup, d, u) : TRUE)
  ELSE [d |-> d, u |-> u, bag |-> Rows(d, u)]
ReadBy(ds, unc, sup, prog) ==
  {d \in ds : \E u \in Reads(prog) :
     u \in Nested \/ ~(u \in Cacheable /\ d \notin unc /\ Lookup(sup, d, u) # {})}
Result(ds, unc, sup, u) == Sum({Partial(ds, unc, sup, d, u) : d \in ds})
Emitted(ds, unc, prog, sup) ==
  {[d |-> d, u |-> u, bag |-> Rows(d, u)] :
     <<d, u>> \in {<<d, u>> \in (ds \ unc) \X (prog \cap Cacheable) :
                      Lookup(sup, d, u) = {}}}

Init == store = {} /\ log = <<>> /\ runs = 0

RECURSIVE SubsetsOf(_, _)
\* in simulation a few random subsets, else all of them (the argument depends on
\* the state: TLC evaluates constant expressions only once)
Draw(S) == RandomElement(IF runs < 0 THEN {} ELSE S)
SubsetsOf(S, n) == IF ~Sim THEN SUBSET S
                   ELSE IF n = 0 THEN {} ELSE {Draw(SUBSET S)} \cup SubsetsOf(S, n - 1)
Half(S) == IF ~Sim THEN SUBSET S
           ELSE IF Draw(1..3) = 1 THEN {Draw(SUBSET S)}
           ELSE IF Draw(1..2) = 1 THEN {S} ELSE {Draw(SUBSET S) \cup Draw(SUBSET S)}
Few(S) == IF ~Sim THEN SUBSET S
          ELSE IF Draw(1..2) = 1 THEN {{}} ELSE {Draw(SUBSET S) \cap Draw(SUBSET S)}

Run ==
  \E ds \in Half(Datasets), prog \in SubsetsOf(Units, 1), lost \in Few(store),
     hidden \in Few(store) :
  \E unc \in Few(ds) :
    LET have == store \ lost
        sup == have \ hidden
        em == Emitted(ds, unc, prog, sup)
    IN
    /\ ds # {} /\ runs < MaxRuns
    /\ runs' = runs + 1
    /\ store' = {e \in have : <<e.d, e.u>> \notin Keys(em)} \cup em
    /\ log' = Append(log,
         [ds |-> ds, unc |-> unc, prog |-> prog, supplied |-> Keys(sup),
          lost |-> Keys(lost),
          emitted |-> Keys(em), needed |-> Needed(ds, unc, prog, sup)])

Next == Run
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* every entry ever stored is the partial result of its own dataset
StoreOk == \A e \in store : e.bag = Rows(e.d, e.u) /\ e.u \in Cacheable
OneEach == \A e, f \in store : e.d = f.d /\ e.u = f.u => e = f
\* analysis with a cache equals analysis without it, whatever is supplied
ResultOk ==
  \A ds \in SUBSET Datasets, u \in Units : \A unc \in SUBSET ds :
     Result(ds, unc, store, u) = Whole(ds)
\* datasets left out are not read by the plan, and the entries of the program
\* suffice
NeededOk ==
  \A ds \in SUBSET Datasets : \A unc \in SUBSET ds, prog \in SUBSET Units :
     LET mine == {e \in store : e.u \in prog /\ e.d \in ds \ unc} IN
     /\ ReadBy(ds, unc, store, prog) \subseteq Needed(ds, unc, prog, store)
     /\ Needed(ds, unc, prog, mine) = Needed(ds, unc, prog, store)
\* a dataset whose entries are all there is not computed again
NoWaste ==
  \A d \in Datasets, u \in Cacheable :
     Lookup(store, d, u) # {} =>
        \A x \in Emitted(Datasets, {}, Units, store) : <<x.d, x.u>> # <<d, u>>

View == <<store, runs>>
Emit == runs = MaxRuns => PrintT("@@" \o ToJson(log))
=============================================================================
