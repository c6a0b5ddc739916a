------------------------------- MODULE Publish -------------------------------
(***************************************************************************)
(* Writing a transform function to a directory.                            *)
(*                                                                         *)
(* One run writes the metadata and the saved model to a temporary area     *)
(* below the target, removes what is published, moves the new metadata and *)
(* function in place and removes the temporary area; every step is one     *)
(* operation on the filesystem.                                            *)
(*                                                                         *)
(* Crash ends a run between any two steps (or in the middle of writing a   *)
(* file) and leaves the filesystem as it is; a later run starts over.      *)
(* Fail makes one step return an error, before or after taking effect; the *)
(* runner then repeats the stage the step belongs to, in the same run.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns,    \* runs in a history
          Versions,   \* versions of the transform function
          Prior,      \* initial version of the directory (0: nothing there)
          SkipMoved,  \* publishing again skips what has already been moved
          Sim

VARIABLES meta, fn,   \* what is published: set of <<file, version>>, or Absent
          tm, tf,     \* this run's temporary copies
          left,       \* what earlier attempts left in the temporary area
          tmp,        \* does the temporary area exist
          pc, v, at, failed, hist

vars == <<meta, fn, tm, tf, left, tmp, pc, v, at, failed, hist>>
Absent == {<<"absent", 0>>}

Meta(x) == {<<"schema", x>>} \cup (IF x % 2 = 1 THEN {<<"assets", x>>} ELSE {})
Fn(x) == {<<"pb", x>>, <<"file" \o ToString(x), x>>}

Init == /\ \E p \in Prior : IF p = 0 THEN meta = Absent /\ fn = Absent
                            ELSE meta = Meta(p) /\ fn = Fn(p)
        /\ tm = Absent /\ tf = Absent /\ left = 0 /\ tmp = FALSE
        /\ pc = "idle" /\ v = 0 /\ at = 0 /\ failed = FALSE /\ hist = <<>>

Start(x) == /\ pc \in {"idle", "done"} /\ Len(hist) < MaxRuns
            \* an interrupted write is run again
            /\ pc = "idle" /\ hist # <<>> => x = v
            /\ v' = x /\ at' = 0 /\ pc' = "schema" /\ failed' = FALSE
            /\ hist' = Append(hist, [v |-> x, at |-> 0, how |-> "none"])
            /\ tm' = Absent /\ tf' = Absent
            /\ UNCHANGED <<meta, fn, left, tmp>>

Tick == at' = at + 1 /\ UNCHANGED <<v, failed, hist>>

\* --- one step each; Sched says what follows it
Schema == /\ pc = "schema" /\ tmp' = TRUE
          /\ tm' = {<<"schema~", v>>} /\ pc' = "rename" /\ Tick /\ UNCHANGED <<meta, fn, tf, left>>
Rename == /\ pc = "rename" /\ tm' = {<<"schema", v>>}
          /\ pc' = (IF v % 2 = 1 THEN "assets" ELSE "copy") /\ Tick /\ UNCHANGED <<meta, fn, tf, left, tmp>>
Assets == /\ pc = "assets" /\ tm' = tm \cup {<<"assets", v>>} /\ pc' = "copy" /\ Tick
          /\ UNCHANGED <<meta, fn, tf, left, tmp>>
Copy == /\ pc = "copy" /\ tmp' = TRUE
        /\ IF tf = Absent THEN tf' = {} /\ pc' = "copy"
           ELSE \E f \in Fn(v) \ tf : /\ tf' = tf \cup {f}
                                      /\ pc' = IF tf' = Fn(v) THEN "delm" ELSE "copy"
        /\ Tick /\ UNCHANGED <<meta, fn, tm, left>>
DelM == /\ pc = "delm"
        /\ IF meta = Absent \/ (SkipMoved /\ tm = Absent)
           THEN pc' = "movem" /\ UNCHANGED meta
           ELSE IF meta = {} THEN meta' = Absent /\ pc' = "movem"
           ELSE (\E f \in meta : meta' = meta \ {f}) /\ pc' = "delm"
        /\ Tick /\ UNCHANGED <<fn, tm, tf, left, tmp>>
MoveM == /\ pc = "movem"
         /\ IF tm # Absent THEN meta' = tm /\ tm' = Absent /\ pc' = "delf"
            ELSE UNCHANGED <<meta, tm>> /\ pc' = IF SkipMoved /\ meta # Absent THEN "delf" ELSE "stuck"
         /\ Tick /\ UNCHANGED <<fn, tf, left, tmp>>
DelF == /\ pc = "delf"
        /\ IF fn = Absent \/ (SkipMoved /\ tf = Absent)
           THEN pc' = "movef" /\ UNCHANGED fn
           ELSE IF fn = {} THEN fn' = Absent /\ pc' = "movef"
           ELSE (\E f \in fn : fn' = fn \ {f}) /\ pc' = "delf"
        /\ Tick /\ UNCHANGED <<meta, tm, tf, left, tmp>>
MoveF == /\ pc = "movef"
         /\ IF tf # Absent THEN fn' = tf /\ tf' = Absent /\ pc' = "deltmp"
            ELSE UNCHANGED <<fn, tf>> /\ pc' = IF SkipMoved /\ fn # Absent THEN "deltmp" ELSE "stuck"
         /\ Tick /\ UNCHANGED <<meta, tm, left, tmp>>
DelTmp == /\ pc = "deltmp"
          /\ IF left > 0 THEN left' = left - 1 /\ UNCHANGED <<tmp, pc>>
             ELSE tmp' = FALSE /\ pc' = "done" /\ UNCHANGED left
          /\ Tick /\ UNCHANGED <<meta, fn, tm, tf>>

Step == Schema \/ Rename \/ Assets \/ Copy \/ DelM \/ MoveM \/ DelF \/ MoveF \/ DelTmp

InTmpM == pc \in {"schema", "rename", "assets"}
Running == pc \notin {"idle", "done", "stuck"}
Leaves(a, b) == (IF a = Absent THEN 0 ELSE 1) + (IF b = Absent THEN 0 ELSE 1)

Crash == /\ Running
         /\ pc' = "idle" /\ tm' = Absent /\ tf' = Absent
         /\ left' = left + Leaves(tm, tf)
         /\ hist' = [hist EXCEPT ![Len(hist)] = [v |-> v, at |-> at, how |-> "crash"]]
         /\ UNCHANGED <<meta, fn, tmp, v, at, failed>>

\* The step fails without effect, or after taking effect; the stage is repeated.
Repeat == \/ InTmpM /\ pc' = "schema" /\ left' = left + Leaves(tm, Absent) /\ tm' = Absent /\ UNCHANGED tf
          \/ pc = "copy" /\ pc' = "copy" /\ left' = left + Leaves(Absent, tf) /\ tf' = Absent /\ UNCHANGED tm
          \/ ~InTmpM /\ pc # "copy" /\ pc' = "delm" /\ UNCHANGED <<left, tm, tf>>
Fail(how) == /\ Running /\ ~failed /\ failed' = TRUE
             /\ hist' = [hist EXCEPT ![Len(hist)] = [v |-> v, at |-> at, how |-> how]]
             /\ Repeat /\ UNCHANGED <<meta, fn, tmp, v, at>>
\* the move took effect and still reported an error
LateMove == /\ pc \in {"movem", "movef"} /\ ~failed /\ failed' = TRUE
            /\ hist' = [hist EXCEPT ![Len(hist)] = [v |-> v, at |-> at, how |-> "late"]]
            /\ IF pc = "movem" THEN meta' = tm /\ tm' = Absent /\ UNCHANGED <<fn, tf>>
               ELSE fn' = tf /\ tf' = Absent /\ UNCHANGED <<meta, tm>>
            /\ pc' = "delm" /\ UNCHANGED <<left, tmp, v, at>>

Fault == Crash \/ Fail("fail") \/ (tm # Absent /\ tf # Absent /\ LateMove)

Next == \/ \E x \in Versions : Start(x)
        \/ Step
        \/ (~Sim \/ RandomElement(1..14) = 1) /\ Fault

(* ------------------------------ properties ------------------------------ *)
Complete == pc = "done" => meta = Meta(v) /\ fn = Fn(v) /\ ~tmp /\ left = 0
NeverStuck == pc # "stuck"
\* A published schema is whole and belongs to a version that was written.
SchemaWhole == meta # Absent => \A f \in meta : f[1] # "schema~"
\* The next run can always be taken to its end.
CanFinish == Running => ENABLED Step

Over == Len(hist) = MaxRuns /\ pc = "done"
Emit == Over => PrintT("@@" \o ToJson([hist |-> hist, steps |-> at]))
=============================================================================
