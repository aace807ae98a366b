---- MODULE CallStore ----
(* What users of pure functions rely on, whatever executions interleave, fail or stop:
   a store keeps for each call its published result, the values written, and the
   pending request. A slot is one call in one store; SameCall relates the slots of one
   call in different stores. A process executes calls, possibly inside each other.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, Slots, Vals, CallOf      \* CallOf[s]: the call of a slot

VARIABLES pub,     \* pub[s]: the published result, 0: none
          val,     \* val[s]: results whose value can be read completely
          req,     \* req[s]: who asked for it, since it was last withdrawn
          again,   \* again[s]: those of them who asked after it was published
          n,       \* n[s]: attempts recorded
          ex,      \* ex[p][s]: the execution of s by p
          seen,    \* seen[p]: what was published when p last asked for it
          cause,   \* cause[p]: what p's current calls have reason to fail with
          alive
svars == <<pub, val, req, again, n, ex, seen, cause, alive>>
None == [phase |-> "no", own |-> {}, tried |-> FALSE, ctx |-> 0]

SInit == /\ pub = [s \in Slots |-> 0] /\ val = [s \in Slots |-> {}]
         /\ req = [s \in Slots |-> {}] /\ again = [s \in Slots |-> {}] /\ n = [s \in Slots |-> 0]
         /\ ex = [p \in Procs |-> [s \in Slots |-> None]]
         /\ seen = [p \in Procs |-> 0]
         /\ cause = [p \in Procs |-> {}] /\ alive = Procs
Idle(p) == \A s \in Slots : ex[p][s].phase = "no"

\* a call begins in the context c: what is entered, where output goes, what runs
SBegin(p, s, c) ==
  /\ p \in alive /\ ex[p][s].phase = "no"
  /\ ex' = [ex EXCEPT ![p][s] = [None EXCEPT !.phase = "open", !.ctx = c]]
  /\ cause' = [cause EXCEPT ![p] = IF Idle(p) THEN {} ELSE @]
  /\ UNCHANGED <<pub, val, req, again, n, alive, seen>>
SAttempt(p, s) ==
  /\ p \in alive /\ ex[p][s].phase = "open"
  /\ ex' = [ex EXCEPT ![p][s].tried = TRUE] /\ n' = [n EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<pub, val, req, again, cause, alive, seen>>
SAddReq(p, s) ==
  /\ p \in alive
  /\ req' = [req EXCEPT ![s] = @ \cup {p}]
  /\ again' = [again EXCEPT ![s] = IF pub[s] # 0 THEN @ \cup {p} ELSE @]
  /\ UNCHANGED <<pub, val, n, ex, cause, alive, seen>>
\* nobody withdraws a request before there is a result
SDropReq(p, s) ==
  /\ p \in alive /\ pub[s] # 0
  /\ req' = [req EXCEPT ![s] = {}] /\ again' = [again EXCEPT ![s] = {}]
  /\ UNCHANGED <<pub, val, n, ex, cause, alive, seen>>
\* the function runs: if it stops now, the request is there
SBody(p, s) ==
  /\ p \in alive /\ ex[p][s].phase = "open" /\ ex[p][s].tried
  /\ req[s] # {} \/ pub[s] # 0
  /\ ex' = [ex EXCEPT ![p][s].phase = "body"]
  /\ UNCHANGED <<pub, val, req, again, n, cause, alive, seen>>
SReturn(p, s, v) ==
  /\ p \in alive /\ ex[p][s].phase = "body"
  /\ ex' = [ex EXCEPT ![p][s].phase = "after", ![p][s].own = {v}]
  /\ UNCHANGED <<pub, val, req, again, n, cause, alive, seen>>
SRaise(p, s, x) ==
  /\ p \in alive /\ ex[p][s].phase = "body"
  /\ ex' = [ex EXCEPT ![p][s].phase = "failed"] /\ cause' = [cause EXCEPT ![p] = @ \cup {x}]
  /\ UNCHANGED <<pub, val, req, again, n, alive, seen>>
SStore(p, s, v) ==
  /\ p \in alive
  /\ val' = [val EXCEPT ![s] = @ \cup {v}]
  /\ UNCHANGED <<pub, req, again, n, ex, cause, alive, seen>>
\* only a complete result that the function returned, or that another store has
SPublish(p, s, v) ==
  /\ p \in alive /\ pub[s] = 0 /\ v \in val[s]
  /\ v \in ex[p][s].own \/ \E u \in Slots : u # s /\ CallOf[u] = CallOf[s] /\ pub[u] = v
  /\ pub' = [pub EXCEPT ![s] = v]
  /\ UNCHANGED <<val, req, again, n, ex, cause, alive, seen>>
\* the execution is refused: the function does not run
SRefuse(p, s, x) ==
  /\ p \in alive
  /\ ex' = [ex EXCEPT ![p][s].phase = IF @ = "open" THEN "refused" ELSE @]
  /\ cause' = [cause EXCEPT ![p] = @ \cup {x}]
  /\ UNCHANGED <<pub, val, req, again, n, alive, seen>>
SFault(p, x) ==
  /\ p \in alive
  /\ cause' = [cause EXCEPT ![p] = @ \cup {x}]
  /\ UNCHANGED <<pub, val, req, again, n, ex, alive, seen>>
\* the call returns v. Its request is withdrawn then, unless the storage failed
SEnd(p, s, v, c) ==
  /\ ex[p][s].ctx = c
  /\ p \in alive /\ ex[p][s].phase \in {"open", "after"}
  /\ pub[s] # 0 /\ v \in {pub[s]} \cup ex[p][s].own
  /\ (ex[p][s].phase = "after" /\ "fault" \notin cause[p]) => (req[s] \subseteq again[s] /\ p \notin req[s])
  /\ ex' = [ex EXCEPT ![p][s] = None]
  /\ UNCHANGED <<pub, val, req, again, n, cause, alive, seen>>
\* the call fails with x
SFail(p, s, x, c) ==
  /\ ex[p][s].ctx = c
  /\ p \in alive /\ ex[p][s].phase # "no" /\ x \in cause[p]
  /\ (ex[p][s].phase \in {"body", "after", "failed"} /\ pub[s] = 0) => req[s] # {}
  /\ ex' = [ex EXCEPT ![p][s] = None]
  /\ UNCHANGED <<pub, val, req, again, n, cause, alive, seen>>
\* p is told that s is ready, and is v
SAnswer(p, s, v) == p \in alive /\ pub[s] = v /\ v # 0 /\ UNCHANGED svars
\* p asks whether s is ready. It may hear no only if there was no result when it asked
SAsk(p, s) == /\ p \in alive /\ seen' = [seen EXCEPT ![p] = pub[s]]
              /\ UNCHANGED <<pub, val, req, again, n, ex, cause, alive>>
SNotReady(p, s) == p \in alive /\ seen[p] = 0 /\ UNCHANGED svars
\* p does something else, which fails with x or (x = "") does not
SOther(p, x, c, d) ==
  /\ p \in alive /\ c = d /\ (x = "" \/ x \in cause[p])
  /\ cause' = [cause EXCEPT ![p] = IF Idle(p) THEN {} ELSE @]
  /\ UNCHANGED <<pub, val, req, again, n, ex, seen, alive>>
SCrash(p) ==
  /\ p \in alive
  /\ alive' = alive \ {p}
  /\ UNCHANGED <<pub, val, req, again, n, ex, cause, seen>>
\* looking at a store when nothing goes on in it
SLook(s, v, asked, m) ==
  /\ v = pub[s] /\ asked = (req[s] # {}) /\ m = n[s]
  /\ UNCHANGED svars

SNext == \E p \in Procs :
  \/ SFault(p, "fault") \/ SCrash(p)
  \/ \E s \in Slots : SBegin(p, s, 0) \/ SAttempt(p, s) \/ SAddReq(p, s) \/ SDropReq(p, s) \/ SAsk(p, s)
                      \/ SBody(p, s) \/ SRaise(p, s, "body") \/ SRefuse(p, s, "fault")
                      \/ \E x \in {"body", "fault"} : SFail(p, s, x, 0)
                      \/ \E v \in Vals : \/ SReturn(p, s, v) \/ SStore(p, s, v) \/ SPublish(p, s, v)
                                         \/ SEnd(p, s, v, 0)
SSpec == SInit /\ [][SNext]_svars

Complete == \A s \in Slots : pub[s] # 0 => pub[s] \in val[s]
Unchanging == [][\A s \in Slots : pub[s] # 0 => pub'[s] = pub[s]]_svars
\* a process that stops in the middle of a run leaves a request, or a result
Recoverable == \A p \in Procs, s \in Slots :
                 ex[p][s].phase \in {"body", "after"} => (req[s] # {} \/ pub[s] # 0)
====
