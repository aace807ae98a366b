---- MODULE SwarmTrace ----
(* Swarming, as recorded from the code.                                          *)
EXTENDS Swarm
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Ev == Traces[t][i]
Set(x) == {x[j] : j \in DOMAIN x}
TInit == SwInit /\ t \in 1..Len(Traces) /\ i = 2 /\ gate = Traces[t][1].v
TNext == /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ UNCHANGED t
         /\ \/ Ev.a = "Start" /\ Start(Ev.s)
            \/ Ev.a = "End" /\ End(Ev.s)
            \/ Ev.a = "Request" /\ Request(Ev.c)
            \/ Ev.a = "Break" /\ Break(Ev.c)
            \/ Ev.a = "Flip" /\ Flip
            \/ Ev.a = "Pass" /\ Pass(Ev.d)
            \/ Ev.a = "Call" /\ Call(Ev.c)
            \/ Ev.a = "Launch" /\ Launch(Ev.k)
            \/ Ev.a = "Leave" /\ Leave(Ev.k)
            \/ Ev.a = "Join" /\ Join(Ev.k)
            \/ Ev.a = "Run" /\ Run(Ev.k, Ev.c)
            \/ Ev.a = "Idle" /\ Idle(Ev.k)
            \/ Ev.a = "Quit" /\ Quit(Ev.k)
            \/ Ev.a = "Finish" /\ Finish(Ev.k)
            \* after having been left alone for long enough
            \/ Ev.a = "Settled" /\ UNCHANGED vars
               /\ \A c \in Good : Needs(c, Slack) => (c = "gt" /\ ~gate)
            \/ Ev.a = "Ended" /\ UNCHANGED vars
               /\ \A k \in Workers : w[k] \in {"none", "ended"} \/ rec = SessionOf[k]
         /\ req' = Set(Ev.req) /\ done' = Set(Ev.done) /\ rec' = Ev.rec
         /\ \A c \in Calls : att'[c] = Ev.att[c]
Progress == PrintT(ToJson([k |-> "P", t |-> t, i |-> i']))
====
