---- MODULE GetWait ----
(* Waiting for the result of a call that others may publish: look; if it is not
   there leave a request, and look again after pauses of one second, about two,
   about four and so on; the last one is cut to end at the timeout, but is never
   shorter than a second. Times are in milliseconds; Slack is for rounding.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Slack, Jitter
VARIABLES phase,    \* "idle", "looked" (once), "asleep", "awake", "over"
          now, stop,    \* stop: when to give up, -1: never
          pause,        \* the latest pause, 0: none yet
          pub,          \* the result is there
          seen,         \* it was there when the latest pause ended, or before the call
          req, outcome
vars == <<phase, now, stop, pause, pub, seen, req, outcome>>

GInit == /\ phase = "idle" /\ now = 0 /\ stop = -1 /\ pause = 0 /\ pub = FALSE
         /\ seen = FALSE /\ req = FALSE /\ outcome = "none"
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b

Call(timeout) ==
  /\ phase \in {"idle", "over"} /\ phase' = "looked"
  /\ stop' = IF timeout < 0 THEN -1 ELSE now + timeout
  /\ seen' = pub /\ pause' = 0 /\ outcome' = "none"
  /\ UNCHANGED <<now, pub, req>>
Publish == /\ ~pub /\ pub' = TRUE
           /\ UNCHANGED <<phase, now, stop, pause, seen, req, outcome>>
Request(r) == req' = r /\ UNCHANGED <<phase, now, stop, pause, pub, seen, outcome>>

Left == stop - now
GoodPause(d) ==
  IF pause = 0 THEN Abs(d - 1000) <= Slack
  ELSE \/ Abs(d - 2 * pause) <= Jitter + Slack /\ (stop < 0 \/ d <= Left + Slack)
       \/ stop >= 0 /\ Abs(d - Max(1000, Left)) <= Slack /\ 2 * pause + Jitter > Left - Slack
\* going to sleep: nothing there, and the request in place
Sleep(d, r) ==
  /\ phase \in {"looked", "awake"} /\ ~seen
  /\ stop >= 0 /\ pause > 0 => now <= stop + Slack
  /\ GoodPause(d) /\ r = TRUE
  /\ phase' = "asleep" /\ pause' = d /\ req' = TRUE
  /\ UNCHANGED <<now, stop, pub, seen, outcome>>
Pass(t) == /\ phase = "asleep" /\ now' = now + t
           /\ UNCHANGED <<phase, stop, pause, pub, seen, req, outcome>>
Wake == /\ phase = "asleep" /\ phase' = "awake" /\ seen' = pub
        /\ UNCHANGED <<now, stop, pause, pub, req, outcome>>
Return(r) ==
  /\ phase \in {"looked", "awake"} /\ pub
  /\ pause > 0 => r = FALSE
  /\ phase' = "over" /\ outcome' = "value" /\ req' = r
  /\ UNCHANGED <<now, stop, pause, pub, seen>>
Timeout(r) ==
  /\ phase = "awake" /\ ~seen
  /\ stop >= 0 /\ now >= stop - Slack /\ r = TRUE
  /\ phase' = "over" /\ outcome' = "timeout" /\ req' = r
  /\ UNCHANGED <<now, stop, pause, pub, seen>>

\* ---------------------------------------- the algorithm, as a model to check
CONSTANTS Timeouts, Step, Horizon
VARIABLE until
mvars == <<vars, until>>
MInit == GInit /\ until = 0
Pauses == IF pause = 0 THEN {1000}
          ELSE {LET d == 2 * pause + j IN IF stop >= 0 /\ now + d > stop THEN Max(1000, Left) ELSE d
                  : j \in {-Jitter, 0, Jitter}}
MNext == \/ phase = "idle" /\ (\E t \in Timeouts : Call(t)) /\ UNCHANGED until
         \/ Publish /\ now < Horizon /\ UNCHANGED until
         \/ /\ phase = "looked" \/ (phase = "awake" /\ ~(stop >= 0 /\ now > stop))
            /\ ~pub /\ \E d \in Pauses : Sleep(d, TRUE) /\ until' = now + d
         \/ phase = "asleep" /\ now < until /\ Pass(Step) /\ UNCHANGED until
         \/ phase = "asleep" /\ now >= until /\ Wake /\ UNCHANGED until
         \/ phase \in {"looked", "awake"} /\ Return(pause = 0 /\ req) /\ UNCHANGED until
         \/ phase = "awake" /\ now > stop /\ Timeout(TRUE) /\ UNCHANGED until
Bound == now <= Horizon
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext /\ phase' # "idle" /\ (now' # now \/ phase' # phase))

NoEarlyTimeout == outcome = "timeout" => now >= stop
Overshoot == (phase \in {"awake", "over"} /\ stop >= 0) => now <= stop + Max(1000, pause) + Slack
NotStuck == (phase \in {"looked", "awake"} /\ ~pub) => \/ stop >= 0 /\ now >= stop
                                                       \/ \E d \in Pauses : GoodPause(d)
LateEnough == outcome = "timeout" => req
Over == stop >= 0 => <>(phase = "over")
====
