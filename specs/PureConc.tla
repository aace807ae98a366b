---- MODULE PureConc ----
(* The protocol by which processes execute, request and read one call over one store,
   one storage operation at a time; any process may stop at any point. It refines
   CallStore. Job[p] is what p does: "exec", "swarm", "get", "poll".              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Job, Raises, MaxCrashes, MaxFaults
S == "s"
VARIABLES pc, pub, val, req, again, n, ex, seen, cause, alive, crashes, faults, ev
v1 == <<pub, val, req, again, n, ex, seen, cause, alive>>
vars == <<pc, pub, val, req, again, n, ex, seen, cause, alive, crashes, faults>>
St == [pc |-> pc, pub |-> pub, val |-> val, req |-> req, again |-> again, n |-> n, ex |-> ex, seen |-> seen,
       cause |-> cause, alive |-> alive, crashes |-> crashes, faults |-> faults]
View == vars
A == INSTANCE CallStore WITH Slots <- {S}, Vals <- {1, 2}, CallOf <- [s \in {S} |-> "c"]
\* the value a run by p returns: two values, so that mixing them up shows
Own(p) == IF p = CHOOSE q \in Procs : TRUE THEN 1 ELSE 2
Go(p, to) == pc' = [pc EXCEPT ![p] = to] /\ UNCHANGED <<crashes, faults>>
Op(p) == ev' = [a |-> "Op", p |-> p]
Silent == UNCHANGED v1

Begin(p) == pc[p] = "start" /\ Go(p, "check") /\ Op(p)
            /\ CASE Job[p] = "exec" -> A!SBegin(p, S, 0) [] Job[p] = "poll" -> A!SAsk(p, S)
                 [] OTHER -> Silent
\* executing
Check(p) == pc[p] = "check" /\ Op(p)
            /\ (IF Job[p] = "poll" /\ pub[S] = 0 THEN A!SNotReady(p, S) ELSE Silent)
            /\ Go(p, IF pub[S] # 0 THEN (IF Job[p] = "swarm" THEN "drop" ELSE "read")
                     ELSE IF Job[p] = "exec" THEN "attempt"
                     ELSE IF Job[p] = "poll" THEN "done" ELSE "ask")
Read(p) == pc[p] = "read" /\ Op(p) /\ pub[S] \in val[S]
           /\ IF Job[p] = "exec" THEN A!SEnd(p, S, pub[S], 0) /\ Go(p, "done")
              ELSE A!SAnswer(p, S, pub[S]) /\ Go(p, IF Job[p] = "poll" THEN "done" ELSE "drop")
Attempt(p) == pc[p] = "attempt" /\ A!SAttempt(p, S) /\ Go(p, "ask") /\ Op(p)
\* asking for it, unless it is there
Ask(p) == pc[p] = "ask" /\ Silent /\ Op(p)
          /\ Go(p, IF pub[S] # 0 THEN "drop1" ELSE "ask2")
Ask2(p) == pc[p] = "ask2" /\ Silent /\ Op(p)
           /\ Go(p, IF req[S] # {} THEN "asked" ELSE "ask3")
Ask3(p) == pc[p] = "ask3" /\ A!SAddReq(p, S) /\ Go(p, "asked") /\ Op(p)
Drop1(p) == pc[p] = "drop1" /\ Op(p) /\ Go(p, "asked")
            /\ IF req[S] # {} THEN A!SDropReq(p, S) ELSE Silent
Asked(p) == pc[p] = "asked" /\ Op(p)
            /\ CASE Job[p] = "exec" -> A!SBody(p, S) /\ Go(p, "body")
                 [] Job[p] = "swarm" -> Silent /\ Go(p, "done")
                 [] OTHER -> Silent /\ Go(p, IF pub[S] # 0 THEN "read" ELSE "asked")
Body(p) == pc[p] = "body" /\ Op(p)
           /\ IF p \in Raises THEN A!SRaise(p, S, "body") /\ Go(p, "fail")
              ELSE A!SReturn(p, S, Own(p)) /\ Go(p, "store")
Fail(p) == pc[p] = "fail" /\ (\E x \in cause[p] : A!SFail(p, S, x, 0)) /\ Go(p, "done") /\ Op(p)
Store(p) == pc[p] = "store" /\ A!SStore(p, S, Own(p)) /\ Go(p, "pub") /\ Op(p)
Pub(p) == pc[p] = "pub" /\ Silent /\ Op(p) /\ Go(p, IF pub[S] # 0 THEN "drop" ELSE "pub2")
\* the store refuses a second value; the loser goes on
Pub2(p) == pc[p] = "pub2" /\ Op(p) /\ Go(p, "drop")
           /\ IF pub[S] = 0 THEN A!SPublish(p, S, Own(p)) ELSE Silent
Drop(p) == pc[p] = "drop" /\ Op(p)
           /\ IF req[S] # {} THEN A!SDropReq(p, S) /\ Go(p, "end") ELSE Silent /\ Go(p, "end")
End(p) == pc[p] = "end" /\ Op(p) /\ Go(p, "done")
          /\ IF Job[p] = "exec" THEN A!SEnd(p, S, Own(p), 0) ELSE Silent
\* the storage reports an error, before or after doing what it was asked to. An execution
\* fails, but publishing is tried once more
Fault(p) == /\ pc[p] \in {"check", "read", "attempt", "ask", "ask2", "ask3", "drop1", "store",
                          "pub", "pub2", "drop"} /\ faults < MaxFaults
            /\ faults' = faults + 1 /\ UNCHANGED crashes
            /\ ev' = [a |-> "Fault", p |-> p] /\ A!SFault(p, "fault")
            /\ pc' = [pc EXCEPT ![p] = IF Job[p] = "exec" THEN "fail" ELSE "done"]
Again(p) == /\ pc[p] \in {"pub", "pub2"} /\ Job[p] = "exec" /\ faults < MaxFaults
            /\ faults' = faults + 1 /\ UNCHANGED crashes
            /\ ev' = [a |-> "Fault", p |-> p] /\ A!SFault(p, "fault")
            /\ pc' = [pc EXCEPT ![p] = "pub"]
Crash(p) == pc[p] \notin {"start", "done"} /\ crashes < MaxCrashes
            /\ crashes' = crashes + 1 /\ UNCHANGED faults /\ pc' = [pc EXCEPT ![p] = "done"]
            /\ A!SCrash(p) /\ ev' = [a |-> "Crash", p |-> p]

Init == A!SInit /\ pc = [p \in Procs |-> "start"] /\ crashes = 0 /\ faults = 0 /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> St]))
Next == \E p \in Procs :
  \/ Begin(p) \/ Check(p) \/ Read(p) \/ Attempt(p) \/ Ask(p) \/ Ask2(p) \/ Ask3(p) \/ Drop1(p)
  \/ Asked(p) \/ Body(p) \/ Fail(p) \/ Store(p) \/ Pub(p) \/ Pub2(p) \/ Drop(p) \/ End(p) \/ Crash(p)
  \/ Fault(p) \/ Again(p)
Fairness == \A p \in Procs : WF_vars(Begin(p) \/ Check(p) \/ Read(p) \/ Attempt(p) \/ Ask(p) \/ Ask2(p)
             \/ Ask3(p) \/ Drop1(p) \/ (pc[p] = "asked" /\ (Job[p] # "get" \/ pub[S] # 0) /\ Asked(p))
             \/ Body(p) \/ Fail(p) \/ Store(p) \/ Pub(p) \/ Pub2(p) \/ Drop(p) \/ End(p))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

Refines == A!SSpec
Complete == A!Complete
Recoverable == A!Recoverable
\* whoever executes comes to an end, whatever the others do
Ends == \A p \in Procs : Job[p] # "get" => <>(pc[p] = "done")
\* and who waits gets the result, if some execution completes
Served == \A p \in Procs : (Job[p] = "get") => ([](pub[S] # 0 => <>(pc[p] = "done")))
====
