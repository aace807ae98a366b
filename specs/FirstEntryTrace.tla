---- MODULE FirstEntryTrace ----
(* Runs recorded from the code: is each of them a behaviour of FirstEntry?       *)
EXTENDS FirstEntry, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Ev == Traces[t][i]
TInit == Init /\ t \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ UNCHANGED t
         /\ \/ Ev.a = "Start" /\ Start(Ev.w, Ev.key, Ev.v)
            \/ Ev.a = "Write" /\ act[Ev.w].k = Ev.key /\ act[Ev.w].v = Ev.v /\ Write(Ev.w)
            \/ Ev.a = "Fault" /\ Fault(Ev.w, Ev.late)
            \/ Ev.a = "WriteFault" /\ act[Ev.w].k = Ev.key /\ act[Ev.w].v = Ev.v /\ WriteFault(Ev.w, Ev.late)
            \/ Ev.a = "End" /\ Finish(Ev.w, Ev.how)
            \/ Ev.a = "Read" /\ Read(Ev.key, Ev.v)
Progress == PrintT(ToJson([k |-> "P", t |-> t, i |-> i']))
====
