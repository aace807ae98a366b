---- MODULE CallStoreTrace ----
(* Runs recorded from the code: is each of them a behaviour of CallStore?          *)
EXTENDS CallStore, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Ev == Traces[t][i]
TInit == SInit /\ t \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ UNCHANGED t
         /\ \/ Ev.a = "Begin" /\ SBegin(Ev.p, Ev.s, Ev.c)
            \/ Ev.a = "Attempt" /\ SAttempt(Ev.p, Ev.s)
            \/ Ev.a = "AddReq" /\ SAddReq(Ev.p, Ev.s)
            \/ Ev.a = "DropReq" /\ SDropReq(Ev.p, Ev.s)
            \/ Ev.a = "Body" /\ SBody(Ev.p, Ev.s)
            \/ Ev.a = "Return" /\ SReturn(Ev.p, Ev.s, Ev.v)
            \/ Ev.a = "Raise" /\ SRaise(Ev.p, Ev.s, Ev.x)
            \/ Ev.a = "Store" /\ SStore(Ev.p, Ev.s, Ev.v)
            \/ Ev.a = "Publish" /\ SPublish(Ev.p, Ev.s, Ev.v)
            \/ Ev.a = "Refuse" /\ SRefuse(Ev.p, Ev.s, Ev.x)
            \/ Ev.a = "Fault" /\ SFault(Ev.p, Ev.x)
            \/ Ev.a = "End" /\ SEnd(Ev.p, Ev.s, Ev.v, Ev.c)
            \/ Ev.a = "Fail" /\ SFail(Ev.p, Ev.s, Ev.x, Ev.c)
            \/ Ev.a = "Answer" /\ SAnswer(Ev.p, Ev.s, Ev.v)
            \/ Ev.a = "Ask" /\ SAsk(Ev.p, Ev.s)
            \/ Ev.a = "NotReady" /\ SNotReady(Ev.p, Ev.s)
            \/ Ev.a = "Other" /\ SOther(Ev.p, Ev.x, Ev.c, Ev.d)
            \/ Ev.a = "Crash" /\ SCrash(Ev.p)
            \/ Ev.a = "Look" /\ SLook(Ev.s, Ev.v, Ev.asked, Ev.n)
Progress == PrintT(ToJson([k |-> "P", t |-> t, i |-> i']))
====
