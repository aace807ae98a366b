------------------------------- MODULE Nodes --------------------------------
(***************************************************************************)
(* Signatures of computers (C26): every process of a user on one computer  *)
(* comes to the same signature, whether or not there is network hardware   *)
(* to tell the computer by (mac = 0: there is none), and no two computers  *)
(* or users share one. Signatures are numbered as they appear.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Macs, Hosts, Users, Kernels, MaxSteps
VARIABLES seen, n, ev
vars == <<seen, n>>
St == [seen |-> seen, n |-> n]
View == <<seen>>
\* a computer that has hardware keeps its name here: whether a renamed one is another is left open
Machines == {m \in [mac : Macs, host : Hosts, user : Users, kernel : Kernels] : m.mac # 0 => m.host = 1}
Index(s, m) == CHOOSE i \in DOMAIN s : s[i] = m
Init == seen = <<>> /\ n = 0 /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
\* a new process asks, once or twice
Ask(m, twice) ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ seen' = IF \E i \in DOMAIN seen : seen[i] = m THEN seen ELSE Append(seen, m)
  /\ ev' = [a |-> "Ask", m |-> m, twice |-> twice, o |-> [is |-> Index(seen', m), again |-> Index(seen', m)]]
One(S) == {RandomElement(IF n < 0 THEN {} ELSE S)}
Next == \E m \in One(Machines), old \in One({0, 1}), t \in One({TRUE, FALSE}) :
          IF old = 1 /\ seen # <<>> THEN \E i \in One(DOMAIN seen) : Ask(seen[i], t) ELSE Ask(m, t)
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))
Distinct == \A i, j \in DOMAIN seen : seen[i] = seen[j] => i = j
=============================================================================
