---- MODULE Retry ----
(* Which pending calls a worker should try: every run is an attempt; after the
   n-th one wait ten seconds doubled n times; after the sixth give up.
   Time is counted from the latest attempt, and passes up to `Span` seconds.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, MaxAttempts, Give, Base

VARIABLES attempts,    \* attempts[c]
          age,         \* age[c]: seconds since the latest attempt at c (0: none so far)
          result,      \* result[c]: "no", "own" portal, "other" portal
          requested, ev
vars == <<attempts, age, result, requested>>
St == [attempts |-> attempts, age |-> age, result |-> result, requested |-> requested]
View == vars
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Pause(n) == Base * Pow(n)
Horizon == Pause(MaxAttempts) + 2

Needs(c) == /\ result[c] = "no"
            /\ attempts[c] <= Give
            /\ attempts[c] > 0 => age[c] > Pause(attempts[c])
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs]

\* a run that fails. While it lasts, nobody else needs to try
Attempt(c) ==
  /\ result[c] = "no" /\ attempts[c] < MaxAttempts
  /\ attempts' = [attempts EXCEPT ![c] = @ + 1]
  /\ age' = [age EXCEPT ![c] = 0]
  /\ requested' = requested \cup {c}
  /\ UNCHANGED result
  /\ Step("Attempt", [c |-> c], [inside |-> FALSE])
\* time passes, up to one of the moments that matter for c: just before, at, or just
\* after the end of its pause
Wait(c, d) ==
  /\ attempts[c] > 0 /\ Pause(attempts[c]) + d > age[c] + 1
  /\ LET t == Pause(attempts[c]) + d - 1 - age[c] IN
     /\ age' = [x \in Calls |-> IF attempts[x] = 0 THEN 0
                                 ELSE IF age[x] + t > Horizon THEN Horizon ELSE age[x] + t]
     /\ UNCHANGED <<attempts, result, requested>>
     /\ Step("Wait", [t |-> t], <<>>)
Publish(c, where) ==
  /\ result[c] = "no"
  /\ result' = [result EXCEPT ![c] = where]
  /\ UNCHANGED <<attempts, age, requested>>
  /\ Step("Publish", [c |-> c, where |-> where], <<>>)
Request(c) ==
  /\ c \notin requested /\ result[c] = "no"
  /\ requested' = requested \cup {c}
  /\ UNCHANGED <<attempts, age, result>>
  /\ Step("Request", [c |-> c], <<>>)
Withdraw(c) ==
  /\ c \in requested
  /\ requested' = requested \ {c}
  /\ UNCHANGED <<attempts, age, result>>
  /\ Step("Withdraw", [c |-> c], <<>>)
Restart ==
  /\ UNCHANGED vars
  /\ Step("Restart", <<>>, <<>>)
Ask(c) ==
  /\ UNCHANGED vars
  /\ Step("Ask", [c |-> c], [needs |-> Needs(c), attempts |-> attempts[c], requested |-> c \in requested])

Init == /\ attempts = [c \in Calls |-> 0] /\ age = [c \in Calls |-> 0]
        /\ result = [c \in Calls |-> "no"] /\ requested = {} /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> St]))
Next == \/ \E c \in Calls : Attempt(c) \/ Request(c) \/ Withdraw(c) \/ Ask(c)
                            \/ (\E w \in {"own", "other"} : Publish(c, w))
                            \/ (\E d \in 0..2 : Wait(c, d))
        \/ Restart
\* for random walks: results come late, or not at all
Late == \/ \E c \in Calls : Attempt(c) \/ Request(c) \/ Withdraw(c) \/ Ask(c)
                            \/ (attempts[c] > 2 /\ \E w \in {"own", "other"} : Publish(c, w))
                            \/ (\E d \in 0..2 : Wait(c, d))
        \/ Restart
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

AtMostSix == \A c \in Calls : attempts[c] > Give => ~Needs(c)
FirstTry == \A c \in Calls : (attempts[c] = 0 /\ result[c] = "no") => Needs(c)
Quiet == \A c \in Calls : result[c] # "no" => ~Needs(c)
\* the pause only ever gets longer, and a call that needs a run goes on needing it until
\* it is run or its result is there
Persist == [][\A c \in Calls : (Needs(c) /\ attempts'[c] = attempts[c] /\ result'[c] = result[c])
                => Needs(c)']_vars
====
