---- MODULE Draws ----
(* Signatures drawn at random in several processes: none is ever drawn twice.
   Draws are recorded from the code. Trace is a sequence of runs, each of them all
   that one process drew: a sequence of signatures, which are sequences of digit
   values (99 for a foreign character).                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Trace == JsonDeserialize("trace.json")
MaxLen == 22
VARIABLES i, drawn
Ran(s) == {s[k] : k \in 1..Len(s)}
Init == i = 0 /\ drawn = {}
Signature(s) == Len(s) \in 1..MaxLen /\ Ran(s) \subseteq 0..31
\* one step for each process, taken only if all that it drew is allowed
Next == /\ i < Len(Trace)
        /\ LET run == Trace[i + 1]
               S   == Ran(run) IN
             /\ \A s \in S : Signature(s)
             /\ Cardinality(S) = Len(run)
             /\ S \cap drawn = {}
             /\ drawn' = drawn \cup S
        /\ i' = i + 1
Obs == [i |-> i]
====
