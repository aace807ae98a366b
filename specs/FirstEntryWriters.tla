---- MODULE FirstEntryWriters ----
(* How assignments go about it, one storage operation at a time: ask whether the key
   is there; if not, write (which the storage refuses when it is there by now); after
   any error wait and do the same again; ask once more; and read back and compare if
   the key was there and a check is due. All interleavings, and storage errors
   before or after a write took effect, at any operation.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Values, Writers, P, MaxFaults, MaxOps
None == "none"
VARIABLES store, act, pc, check, nf, n, ev
vars == <<store, act, pc, check, nf, n>>
St == [store |-> store, act |-> act, pc |-> pc, check |-> check, nf |-> nf, n |-> n]
View == vars

A == INSTANCE FirstEntry
Idle == A!Idle

Init == /\ A!Init
        /\ pc = [w \in Writers |-> "idle"] /\ check = [w \in Writers |-> FALSE]
        /\ nf = 0 /\ n = 0 /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> St]))

Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Log(w, what, x) == ev' = [a |-> what, w |-> w] @@ x
Same == UNCHANGED <<nf, n>>

Start(w, k, v) ==
  /\ n < MaxOps /\ A!Start(w, k, v)
  /\ Go(w, "has1") /\ check' = [check EXCEPT ![w] = FALSE]
  /\ n' = n + 1 /\ UNCHANGED nf /\ Log(w, "Start", [key |-> k, v |-> v])

Present(w) == store[act[w].k] # None
\* asking, at has1 and again at has2
Has(w) ==
  /\ pc[w] \in {"has1", "has2"}
  /\ Go(w, IF Present(w) THEN "has3" ELSE IF pc[w] = "has1" THEN "write1" ELSE "write2")
  /\ check' = [check EXCEPT ![w] = Present(w)]
  /\ UNCHANGED <<store, act>> /\ Same /\ Log(w, "Op", [fault |-> "no"])
\* writing; a key that is there by now makes the storage refuse
WriteOk(w) ==
  /\ pc[w] \in {"write1", "write2"} /\ ~Present(w)
  /\ A!Write(w)
  /\ Go(w, "has3") /\ UNCHANGED check /\ Same /\ Log(w, "Op", [fault |-> "no"])
Refused(w) ==
  /\ pc[w] \in {"write1", "write2"} /\ Present(w)
  /\ Go(w, IF pc[w] = "write1" THEN "has2" ELSE "fail")
  /\ UNCHANGED <<store, act, check>> /\ Same /\ Log(w, "Op", [fault |-> "no"])
\* errors of the storage
Retry(w) == pc[w] \in {"has1", "write1"}
Broken(w) ==
  /\ nf < MaxFaults /\ nf' = nf + 1
  /\ pc[w] \in {"has1", "has2", "write1", "write2", "has3", "read"}
  /\ A!Fault(w, ~Retry(w))
  /\ Go(w, IF Retry(w) THEN "has2" ELSE "fail")
  /\ UNCHANGED <<check, n>> /\ Log(w, "Op", [fault |-> "before"])
BrokenAfter(w) ==
  /\ nf < MaxFaults /\ nf' = nf + 1
  /\ pc[w] \in {"write1", "write2"} /\ ~Present(w)
  /\ A!WriteFault(w, ~Retry(w))
  /\ Go(w, IF pc[w] = "write1" THEN "has2" ELSE "fail")
  /\ UNCHANGED <<check, n>> /\ Log(w, "Op", [fault |-> "after"])
Confirm(w) ==
  /\ pc[w] = "has3"
  /\ IF ~Present(w) THEN Go(w, "fail")
     ELSE \/ check[w] /\ P > 0 /\ Go(w, "read")
          \/ ~(check[w] /\ P = 2) /\ Go(w, "return")
  /\ UNCHANGED <<store, act, check>> /\ Same /\ Log(w, "Op", [fault |-> "no"])
Compare(w) ==
  /\ pc[w] = "read"
  /\ Go(w, IF store[act[w].k] = act[w].v THEN "return" ELSE "fail")
  /\ UNCHANGED <<store, act, check>> /\ Same /\ Log(w, "Op", [fault |-> "no"])
End(w) ==
  /\ pc[w] \in {"return", "fail"}
  /\ A!Finish(w, IF pc[w] = "return" THEN "ok" ELSE "error")
  /\ Go(w, "idle") /\ UNCHANGED check /\ Same /\ Log(w, "End", <<>>)

Step(w) == Has(w) \/ WriteOk(w) \/ Refused(w) \/ Broken(w) \/ BrokenAfter(w)
           \/ Confirm(w) \/ Compare(w) \/ End(w)
Next == \E w \in Writers : Step(w) \/ \E k \in Keys, v \in Values : Start(w, k, v)
Spec == Init /\ [][Next]_vars /\ \A w \in Writers : WF_vars(Step(w))
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

\* the protocol keeps what users rely on
Refines == A!Spec
FirstStays == A!FirstStays
\* and an assignment that nothing hinders goes through
Stuck == \A w \in Writers : pc[w] = "fail" => ENABLED A!Finish(w, "error")
Ends == \A w \in Writers : pc[w] # "idle" ~> pc[w] = "idle"
====
