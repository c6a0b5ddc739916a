------------------------------- MODULE Context ------------------------------
(***************************************************************************)
(* Settings of nested contexts on several threads.                         *)
(*                                                                         *)
(* A context object fixes a value for some settings (0 = not given).  A    *)
(* thread enters objects, made by itself or by any other thread, and       *)
(* leaves them innermost first, normally or because of an error.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Settings, Values, MaxObjs, MaxDepth, MaxSteps

VARIABLES objs,   \* sequence of context objects: [Settings -> 0..Values]
          stack,  \* per thread, the object numbers entered, outermost first
          log, steps

vars == <<objs, stack, log, steps>>

Init == objs = <<>> /\ stack = [t \in Threads |-> <<>>] /\ log = <<>> /\ steps = 0

\* The value in force: given by the innermost enclosing context that gives one.
RECURSIVE Look(_, _)
Look(st, s) == IF st = <<>> THEN 0
               ELSE LET v == objs'[st[Len(st)]][s] IN
                    IF v # 0 THEN v ELSE Look(SubSeq(st, 1, Len(st) - 1), s)
Effective(t) == [s \in Settings |-> Look(stack'[t], s)]

Step(a, t, o) ==
  /\ steps < MaxSteps /\ steps' = steps + 1
  /\ log' = Append(log, [a |-> a, t |-> t, o |-> o,
        set |-> IF o = 0 THEN <<>> ELSE objs'[o],
        e |-> [u \in Threads |-> Effective(u)]])

Make(t) == /\ Len(objs) < MaxObjs
           /\ \E f \in [Settings -> 0..Values] : objs' = Append(objs, f)
           /\ UNCHANGED stack
           /\ Step("make", t, Len(objs) + 1)
Enter(t) == \E o \in DOMAIN objs :
           /\ Len(stack[t]) < MaxDepth
           /\ stack' = [stack EXCEPT ![t] = Append(@, o)]
           /\ UNCHANGED objs
           /\ Step("enter", t, o)
Leave(t, how) ==
           /\ stack[t] # <<>>
           /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
           /\ UNCHANGED objs
           /\ Step(how, t, 0)

Next == \E t \in Threads : Make(t) \/ Enter(t) \/ Leave(t, "exit") \/ Leave(t, "raise")
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* A step of one thread changes nothing that another thread sees.
Isolated ==
  \A k \in 2..Len(log) : \A u \in Threads :
     u # log[k].t => log[k].e[u] = log[k - 1].e[u]
\* Leaving a block restores what was in force when it was entered.
RECURSIVE Match(_, _, _)
Match(t, k, d) ==  \* index of the entry that the exit at k closes, scanning back
  IF k = 0 THEN 0
  ELSE LET r == log[k] IN
       IF r.t # t \/ r.a = "make" THEN Match(t, k - 1, d)
       ELSE IF r.a = "enter" THEN (IF d = 0 THEN k ELSE Match(t, k - 1, d - 1))
       ELSE Match(t, k - 1, d + 1)
Restored ==
  \A k \in DOMAIN log : log[k].a \in {"exit", "raise"} =>
     LET m == Match(log[k].t, k - 1, 0) IN
     m > 1 => log[k].e[log[k].t] = log[m - 1].e[log[k].t]
\* Outside of every block everything has its default.
Default == \A t \in Threads : (stack[t] = <<>> /\ log # <<>>) =>
              log[Len(log)].e[t] = [s \in Settings |-> 0]

View == <<objs, stack>>
Emit == steps = MaxSteps => PrintT("@@" \o ToJson(log))
=============================================================================
