------------------------------ MODULE CallGraph ------------------------------
(***************************************************************************)
(* The functions of one island, what their code refers to, and what each   *)
(* depends on (C11). Functions are defined one after another, in any order,*)
(* and used in between; a function can be used once it and all it reaches  *)
(* are defined and may use what they use. Its dependencies are what it     *)
(* reaches.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Funs,
          MaxRefs,      \* how many functions the code of one may refer to
          Stricts,      \* how many functions may be strictly autonomous
          Chain         \* functions each of which refers to the next, <<>>: none need to

VARIABLES defined,  \* the functions defined so far
          refs,     \* refs[f]: the functions the code of f refers to
          strict,   \* those declared strictly autonomous
          used      \* those used so far, successfully

vars == <<defined, refs, strict, used>>

RECURSIVE Grow(_, _)
Grow(R, S) == LET T == S \cup UNION {R[f] : f \in S}
              IN IF T = S THEN S ELSE Grow(R, T)
Reach(f) == Grow(refs, {f})

(* Among some functions only, whatever else their code refers to.           *)
ReachIn(D, f) == Grow([g \in D |-> refs[g] \cap D], {f})

MayUse(g) == g \in defined
             /\ (refs[g] \ {g}) \subseteq (IF g \in strict THEN {} ELSE defined)
Usable(f) == \A g \in Reach(f) : MayUse(g)

St == [defined |-> defined, refs |-> refs, strict |-> strict, used |-> used]

Init ==
  /\ defined = {}
  /\ refs = [f \in Funs |-> {}]
  /\ strict = {}
  /\ used = {}
  /\ PrintT(ToJson([k |-> "I", t |-> St]))

Obs(f) == IF Usable(f) THEN [ok |-> TRUE, deps_s |-> Reach(f)]
          ELSE [ok |-> FALSE, deps_s |-> {}]

Emit(e) == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, t |-> St', e |-> e]))

RefSets == IF MaxRefs > 2 THEN SUBSET Funs
           ELSE {{}} \cup {{g, h} : g, h \in Funs}
Define(f, R, s) ==
  /\ f \notin defined
  /\ \A i \in 1..Len(Chain) - 1 : Chain[i] = f => Chain[i + 1] \in R
  /\ Cardinality(R) <= MaxRefs
  /\ s => Cardinality(strict) < Stricts
  /\ defined' = defined \cup {f}
  /\ refs' = [refs EXCEPT ![f] = R]
  /\ strict' = IF s THEN strict \cup {f} ELSE strict
  /\ UNCHANGED used
  /\ Emit([a |-> "Define", f |-> f, refs |-> R, strict |-> s, o |-> [ok |-> TRUE]])
Call(f) ==
  /\ f \in defined
  /\ used' = IF Usable(f) THEN used \cup {f} ELSE used
  /\ UNCHANGED <<defined, refs, strict>>
  /\ Emit([a |-> "Call", f |-> f, o |-> Obs(f)])
(* The analysis alone, of the functions there are.                          *)
Explore ==
  /\ defined # {}
  /\ UNCHANGED vars
  /\ Emit([a |-> "Explore", o |-> [graph_s |-> [f \in defined |-> ReachIn(defined, f)]]])

Next ==
  \/ \E f \in Funs, R \in RefSets, s \in BOOLEAN : Define(f, R, s)
  \/ \E f \in Funs : Call(f)
  \/ Explore

(***************************************************************************)
(* What is used stays usable, with the same dependencies: they are only    *)
(* known once everything is there. A strict function reaches itself alone. *)
(* Dependencies are closed, and the same all around a cycle.               *)
(***************************************************************************)
UsedStaysUsable == \A f \in used : Usable(f)
StrictAlone == \A f \in strict \cap used : Reach(f) = {f}
Closed == \A f \in Funs : \A g \in Reach(f) : Reach(g) \subseteq Reach(f)
Cycles == \A f, g \in Funs : (f \in Reach(g) /\ g \in Reach(f)) => Reach(f) = Reach(g)
Stable == [][\A f \in used : Reach(f)' = Reach(f)]_vars
=============================================================================
