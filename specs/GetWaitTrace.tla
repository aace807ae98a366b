---- MODULE GetWaitTrace ----
(* Waiting, as recorded from the code.                                           *)
EXTENDS GetWait
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Ev == Traces[t][i]
TInit == GInit /\ until = 0 /\ t \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ UNCHANGED <<t, until>>
         /\ \/ Ev.a = "Call" /\ Call(Ev.timeout)
            \/ Ev.a = "Publish" /\ Publish
            \/ Ev.a = "Request" /\ Request(Ev.req)
            \/ Ev.a = "Sleep" /\ Sleep(Ev.d, Ev.req)
            \/ Ev.a = "Pass" /\ Pass(Ev.d)
            \/ Ev.a = "Wake" /\ Wake
            \/ Ev.a = "Return" /\ Return(Ev.req)
            \/ Ev.a = "Timeout" /\ Timeout(Ev.req)
Progress == PrintT(ToJson([k |-> "P", t |-> t, i |-> i']))
====
