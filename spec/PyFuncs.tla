------------------------------- MODULE PyFuncs ------------------------------
(***************************************************************************)
(* Python functions in saved models.                                       *)
(*                                                                         *)
(* A model holds operations that name a Python function by a token that    *)
(* only means something to the process that made it, and the functions     *)
(* themselves with their tokens.  Loading a model into a graph gives every *)
(* function a token of the loading process and renames the operations.     *)
(* The result may be saved again (as each analysis phase does) by another  *)
(* process than the one that began, with its own count of tokens.          *)
(*                                                                         *)
(* The contract (Own): whatever was loaded and saved where and how often,  *)
(* every operation calls the function it was made with.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Procs, Fns, MaxGraphs, MaxModels, MaxOps, Steps, Sim,
          KeepOld          \* old tokens are imported along with the new ones

VARIABLES count,           \* process -> number of tokens given out
          known,           \* process -> token -> function
          graphs,          \* [proc, ops, coll]; ops: [fn, tok, at]; coll: <<token, function>>s
          models,          \* [ops, coll]
          log
vars == <<count, known, graphs, models, log>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Do(what) == log' = Append(log, what)
Init == /\ count = [p \in Procs |-> 0] /\ known = [p \in Procs |-> <<>>]
        /\ graphs = <<>> /\ models = <<>> /\ log = <<>>

\* process p registers the functions of fs in order
Register(p, fs) == /\ count' = [count EXCEPT ![p] = @ + Len(fs)]
                   /\ known' = [known EXCEPT ![p] = @ \o fs]
Token(p, n) == count[p] + n      \* of the n-th function registered next

\* something else in the process uses a Python function
Noise(p) == /\ Register(p, <<0>>) /\ Do([do |-> "noise", p |-> p]) /\ UNCHANGED <<graphs, models>>
NewGraph(p) == /\ Len(graphs) < MaxGraphs
               /\ graphs' = Append(graphs, [proc |-> p, ops |-> <<>>, coll |-> <<>>])
               /\ Do([do |-> "graph", p |-> p]) /\ UNCHANGED <<count, known, models>>
Apply(g, f, at) == LET G == graphs[g] IN
  /\ Len(G.ops) < MaxOps
  /\ Register(G.proc, <<f>>)
  /\ graphs' = [graphs EXCEPT ![g].ops = Append(@, [fn |-> f, tok |-> Token(G.proc, 1), at |-> at]),
                              ![g].coll = Append(@, <<Token(G.proc, 1), f>>)]
  /\ Do([do |-> "apply", g |-> g, f |-> f, at |-> at]) /\ UNCHANGED models
\* the new token of an old one: that of the last entry with the old token
Renamed(coll, tok, p) ==
  LET at == {i \in DOMAIN coll : coll[i][1] = tok}
  IN IF at = {} THEN tok ELSE Token(p, CHOOSE i \in at : \A j \in at : j <= i)
Load(g, m, at) == LET G == graphs[g] M == models[m] n == Len(G.ops) IN
  /\ n + Len(M.ops) <= MaxOps
  /\ Register(G.proc, [i \in DOMAIN M.coll |-> M.coll[i][2]])
  /\ graphs' = [graphs EXCEPT
       ![g].ops = @ \o [i \in DOMAIN M.ops |-> [fn |-> M.ops[i].fn, tok |-> Renamed(M.coll, M.ops[i].tok, G.proc),
                                                at |-> IF M.ops[i].at = 0 THEN at ELSE M.ops[i].at + n]],
       ![g].coll = @ \o [i \in DOMAIN M.coll |-> <<Token(G.proc, i), M.coll[i][2]>>] \o (IF KeepOld THEN M.coll ELSE <<>>)]
  /\ Do([do |-> "load", g |-> g, m |-> m, at |-> at]) /\ UNCHANGED models
Save(g) == /\ Len(models) < MaxModels /\ graphs[g].ops # <<>>
           /\ models' = Append(models, [ops |-> graphs[g].ops, coll |-> graphs[g].coll])
           /\ Do([do |-> "save", g |-> g]) /\ UNCHANGED <<count, known, graphs>>
\* a model is loaded as a function (TF2) and used
Peek(p, m) == /\ Register(p, [i \in DOMAIN models[m].coll |-> models[m].coll[i][2]])
              /\ Do([do |-> "peek", p |-> p, m |-> m]) /\ UNCHANGED <<graphs, models>>

Some(S) == Pick(S \cup {0}) \ {0}      \* RandomElement of a set that may be empty
Next == /\ Len(log) < Steps
        /\ \/ \E p \in Pick(Procs) : Noise(p) \/ NewGraph(p)
           \/ \E g \in Some(DOMAIN graphs) : \E at \in Pick(0..Len(graphs[g].ops)) :
                \/ \E f \in Pick(Fns) : Apply(g, f, at)
                \/ \E m \in Some(DOMAIN models) : Load(g, m, at)
           \/ \E g \in Some(DOMAIN graphs) : Save(g)
           \/ \E p \in Pick(Procs), m \in Some(DOMAIN models) : Peek(p, m)
           \/ (Sim /\ \E m \in Some(DOMAIN models) : \E g \in Some({h \in DOMAIN graphs : graphs[h].ops = <<>>}) : Load(g, m, 0))
Spec == Init /\ [][Next]_vars

(* ------------------------------- contract ------------------------------- *)
Called(p, tok) == known[p][tok]
OwnIn(G) == \A i \in DOMAIN G.ops : Called(G.proc, G.ops[i].tok) = G.ops[i].fn
Own == \A g \in DOMAIN graphs : OwnIn(graphs[g])
\* what a model says about a token is not ambiguous
Plain == \A m \in DOMAIN models : \A i \in DOMAIN models[m].ops :
           {c[2] : c \in {d \in ToSet(models[m].coll) : d[1] = models[m].ops[i].tok}} = {models[m].ops[i].fn}

Emit == Len(log) = Steps /\ Len(models) > 0 => PrintT("@@" \o ToJson(
          [log |-> log,
           graphs |-> [g \in DOMAIN graphs |-> [proc |-> graphs[g].proc, ops |-> graphs[g].ops]],
           models |-> [m \in DOMAIN models |-> models[m].ops]]))
View == <<count, known, graphs, models>>
=============================================================================
