--------------------------- MODULE TaskFramework ---------------------------
(* Calls of exorad tasks (exorad/tasks/task.py).  Instances of task classes
   are called with some of their declared parameters; an execution may call
   tasks of other instances before it produces its output.  The observable
   result of a step is in obs.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Values,      \* argument values, among them falsy ones
          MaxDepth,    \* nesting of calls
          MaxCalls     \* number of calls in a behaviour

Instances == {"a1", "a2", "b1", "c1"}
ClassOf == [a1 |-> "A", a2 |-> "A", b1 |-> "B", c1 |-> "C"]
\* class C extends A by one more parameter; p is declared by A and B with
\* different defaults
Declared == [A |-> [p |-> "none", q |-> "dq"],
             B |-> [p |-> "dp", r |-> "none"],
             C |-> [p |-> "none", q |-> "dq", s |-> "zero"]]
AllParams == {"p", "q", "r", "s", "zz"}

Params(i) == DOMAIN Declared[ClassOf[i]]

VARIABLES stack,   \* running executions: [inst, seen, id]
          calls,   \* number of accepted calls so far
          obs      \* observable result of the last step

vars == <<stack, calls, obs>>

Init == stack = <<>> /\ calls = 0 /\ obs = [ev |-> "Init"]

Running == {stack[k].inst : k \in 1..Len(stack)}

ArgSets == UNION {[D -> Values] : D \in SUBSET AllParams}

Seen(i, args) ==
    [x \in Params(i) |-> IF x \in DOMAIN args THEN args[x] ELSE Declared[ClassOf[i]][x]]

\* the call starts executing: it sees its arguments and the defaults
Begin(i, args) ==
    /\ i \notin Running /\ calls < MaxCalls
    /\ DOMAIN args \subseteq Params(i)
    /\ Len(stack) < MaxDepth
    /\ calls' = calls + 1
    /\ stack' = Append(stack, [inst |-> i, seen |-> Seen(i, args), id |-> calls + 1])
    /\ obs' = [ev |-> "Begin", inst |-> i, seen |-> Seen(i, args)]

\* an undeclared argument: ValueError, nothing executed
Reject(i, args) ==
    /\ i \notin Running /\ calls < MaxCalls
    /\ ~ (DOMAIN args \subseteq Params(i))
    /\ calls' = calls + 1
    /\ UNCHANGED stack
    /\ obs' = [ev |-> "Reject", inst |-> i, error |-> "ValueError"]

\* the innermost execution looks at its parameters again
Look ==
    /\ stack # <<>>
    /\ UNCHANGED <<stack, calls>>
    /\ obs' = [ev |-> "Look", inst |-> stack[Len(stack)].inst, seen |-> stack[Len(stack)].seen]

\* it produces its output and returns it
End ==
    /\ stack # <<>>
    /\ LET f == stack[Len(stack)] IN
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ obs' = [ev |-> "End", inst |-> f.inst, ret |-> f.id]
    /\ UNCHANGED calls

\* it raises: the caller sees the error, the instance keeps working
Raise ==
    /\ stack # <<>>
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ obs' = [ev |-> "Raise", inst |-> stack[Len(stack)].inst, error |-> "KeyError"]
    /\ UNCHANGED calls

Next == \/ \E i \in Instances : \E args \in ArgSets : Begin(i, args)
        \/ \E i \in Instances : \E args \in ArgSets : Reject(i, args)
        \/ Look \/ End \/ Raise

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every running execution sees exactly the declared parameters
OwnParamsOnly == \A k \in 1..Len(stack) : DOMAIN stack[k].seen = Params(stack[k].inst)
\* no instance runs twice at a time; identifiers are distinct and increasing
Distinct == \A j, k \in 1..Len(stack) : j < k => stack[j].inst # stack[k].inst /\ stack[j].id < stack[k].id
\* what an execution sees never changes while it runs (whatever runs inside)
SeenStable == [][\A k \in 1..Len(stack) : k <= Len(stack') /\ stack'[k].id = stack[k].id
                     => stack'[k] = stack[k]]_vars
\* a rejected call executes nothing
RejectInert == [][obs'.ev = "Reject" => stack' = stack]_vars
=============================================================================
