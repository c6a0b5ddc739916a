------------------------------- MODULE CacheFS ------------------------------
(***************************************************************************)
(* The analysis cache in a directory, used by a sequence of pipelines.     *)
(*                                                                         *)
(* Two descriptions of the directory are kept:                             *)
(*   store : what the contract promises, dataset -> key -> value           *)
(*   disk  : what a faithful implementation keeps, an index file mapping   *)
(*           keys to file numbers, the numbered files, and the size file   *)
(* Invariant Refines says that reading through the index gives the store.  *)
(* Damage removes the index (a missing or unreadable index file).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Datasets, Keys, MaxSteps,
          Sim   \* simulation: draw the parameters of each step, read at the end

VARIABLES store, size, disk, log, steps

vars == <<store, size, disk, log, steps>>

None == 0

Init == /\ store = [d \in Datasets |-> [k \in Keys |-> None]]
        /\ size = [d \in Datasets |-> None]
        /\ disk = [d \in Datasets |-> [index |-> [k \in Keys |-> -1], files |-> <<>>]]
        /\ log = <<>> /\ steps = 0

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

HasIndex(d) == \E k \in Keys : disk[d].index[k] >= 0
\* Writing the keys ks of dataset d: new files after the highest one in use.
RECURSIVE WriteKeys(_, _, _)
WriteKeys(dk, ks, v) ==
  IF ks = {} THEN dk
  ELSE LET k == CHOOSE x \in ks : TRUE
           n == 1 + Max({dk.index[x] : x \in Keys})
           fs == [i \in (DOMAIN dk.files) \cup {n} |->
                    IF i = n THEN v ELSE dk.files[i]]
       IN WriteKeys([index |-> [dk.index EXCEPT ![k] = n], files |-> fs], ks \ {k}, v)

Result(ds, filter) ==
  [d \in {x \in ds : \E k \in Keys : store'[x][k] # None} |->
     [size |-> size'[d],
      entries |-> [k \in {x \in filter : store'[d][x] # None} |-> store'[d][k]]]]

Step(rec) == /\ steps < MaxSteps /\ steps' = steps + 1 /\ log' = Append(log, rec)

\* One pipeline writes the keys w[d] (and a size when m[d]) of some datasets.
\* (the set must depend on the state: TLC evaluates constant expressions once)
Draw(S, n) == IF Sim THEN {RandomElement(IF steps < 0 THEN {} ELSE S) : i \in 1..n} ELSE S
Last == Sim /\ steps = MaxSteps - 1

Write ==
  \E w \in Draw([Datasets -> SUBSET Keys], 1), m \in Draw([Datasets -> BOOLEAN], 1) :
    LET v == steps + 1
        touched == {d \in Datasets : w[d] # {} \/ m[d]}
    IN /\ touched # {} /\ ~Last
       \* a size alone is only recorded next to entries
       /\ \A d \in Datasets : m[d] /\ w[d] = {} => HasIndex(d)
       /\ store' = [d \in Datasets |-> [k \in Keys |->
                      IF k \in w[d] THEN v ELSE store[d][k]]]
       /\ size' = [d \in Datasets |-> IF m[d] THEN v ELSE size[d]]
       /\ disk' = [d \in Datasets |-> WriteKeys(disk[d], w[d], v)]
       /\ Step([a |-> "write", w |-> [d \in touched |-> w[d]],
                m |-> [d \in touched |-> m[d]], v |-> v,
                \* files that no key refers to any more: numbers must not be used again
                gap |-> Cardinality({d \in touched : w[d] # {} /\ \E k \in Keys \ w[d] :
                                       disk[d].index[k] >= Cardinality({j \in Keys : disk[d].index[j] >= 0})})])

Read ==
  /\ Sim
  /\ \E ds \in IF Last THEN {Datasets} ELSE Draw(SUBSET Datasets, 1),
        all \in IF Last THEN {TRUE} ELSE BOOLEAN,
        filter \in IF Last THEN {Keys} ELSE Draw(SUBSET Keys, 1) :
       /\ ds # {}
       /\ UNCHANGED <<store, size, disk>>
       /\ Step([a |-> "read", ds |-> ds, all |-> all, filter |-> filter,
                e |-> Result(ds, IF all THEN Keys ELSE filter)])

Damage ==
  \E d \in Draw(Datasets, 1), kind \in Draw({"remove", "truncate", "garbage"}, 1) :
    /\ HasIndex(d) /\ ~Last
    \* damage only half of the times it is possible
    /\ Sim => RandomElement(IF steps < 0 THEN {} ELSE BOOLEAN)
    /\ store' = [store EXCEPT ![d] = [k \in Keys |-> None]]
    /\ disk' = [disk EXCEPT ![d].index = [k \in Keys |-> -1]]
    /\ UNCHANGED size
    /\ Step([a |-> "damage", d |-> d, kind |-> kind])

Next == Write \/ Read \/ Damage
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Refines ==
  \A d \in Datasets, k \in Keys :
    LET n == disk[d].index[k] IN
    IF n < 0 THEN store[d][k] = None
    ELSE n \in DOMAIN disk[d].files /\ disk[d].files[n] = store[d][k]
NoSharing ==
  \A d \in Datasets, j, k \in Keys :
    j # k /\ disk[d].index[j] >= 0 => disk[d].index[j] # disk[d].index[k]

View == <<store, size, disk, steps>>
Emit == steps = MaxSteps => PrintT("@@" \o ToJson(log))
=============================================================================
