---- MODULE Logging ----
(* Exceptions on their way through nested portal blocks and function calls, the
   crash records they leave, and events.

   A frame is one of
     open     a portal entered explicitly, at the bottom
     block    a "with portal" block
     call     a call of a decorated function: ordinary, autonomous or pure
     try      the body of a try statement
     handler  the body of its except clause, handling x
   An exception is noticed by the innermost call or block it leaves, or by the
   interpreter's hook for uncaught exceptions. It is then recorded in all portals
   entered at that point, and never again.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Portals, Kinds, MaxDepth, MaxExc, MaxEvents,
          StoreOf,      \* where each portal keeps its records: portals may share a store
          EventNames,   \* names an event may be given; "" is none
          ArgSets       \* names of its keyword arguments, "*" stands for positional ones

VARIABLES frames, flight, nexc, logged, held, recs, log, nev, ev
vars == <<frames, flight, nexc, logged, held, recs, log, nev>>
State == [frames |-> frames, flight |-> flight, nexc |-> nexc, logged |-> logged,
          held |-> held, recs |-> recs, log |-> log, nev |-> nev]
View == vars

Range(s) == {s[i] : i \in 1..Len(s)}
\* an ordinary function does not enter its portal, the other kinds do
Enters(f) == \/ f.f \in {"open", "block"}
             \/ f.f = "call" /\ f.kind # "ordinary"
EnteredSeq(fs) == SelectSeq(fs, Enters)
Entered(fs) == {f.p : f \in {g \in Range(fs) : Enters(g)}}
Stores(fs) == {StoreOf[p] : p \in Entered(fs)}
Current(fs) == LET s == EnteredSeq(fs) IN IF s = <<>> THEN "none" ELSE s[Len(s)].p
Top == frames[Len(frames)]
Rest == SubSeq(frames, 1, Len(frames) - 1)
Bottom == \A f \in Range(frames) : f.f = "open"

Obs == [recs_s |-> recs', log_s |-> {[p |-> r.p, id |-> r.id, n |-> r.n, fields |-> r.fields] : r \in log'},
        current |-> Current(frames'), flight |-> flight']
Step(name, args) == ev' = [a |-> name] @@ args @@ [o |-> Obs]

Push(f) == frames' = Append(frames, f)
Room == flight = 0 /\ Len(frames) < MaxDepth

Open(p) ==
  /\ Room /\ Bottom
  /\ Push([f |-> "open", p |-> p])
  /\ UNCHANGED <<flight, nexc, logged, held, recs, log, nev>>
  /\ Step("Open", [p |-> p])
Block(p) ==
  /\ Room
  /\ Push([f |-> "block", p |-> p])
  /\ UNCHANGED <<flight, nexc, logged, held, recs, log, nev>>
  /\ Step("Block", [p |-> p])
Call(kind, p) ==
  /\ Room
  /\ Push([f |-> "call", kind |-> kind, p |-> p])
  /\ UNCHANGED <<flight, nexc, logged, held, recs, log, nev>>
  /\ Step("Call", [kind |-> kind, p |-> p])
Try ==
  /\ Room /\ frames # <<>> /\ Top.f # "try"
  /\ Push([f |-> "try"])
  /\ UNCHANGED <<flight, nexc, logged, held, recs, log, nev>>
  /\ Step("Try", <<>>)
Return ==
  /\ flight = 0 /\ frames # <<>> /\ Top.f # "open"
  /\ frames' = Rest
  /\ UNCHANGED <<flight, nexc, logged, held, recs, log, nev>>
  /\ Step("Return", <<>>)

Raise ==
  /\ flight = 0 /\ nexc < MaxExc
  /\ nexc' = nexc + 1 /\ flight' = nexc + 1
  /\ UNCHANGED <<frames, logged, held, recs, log, nev>>
  /\ Step("Raise", [x |-> nexc + 1])
\* the same exception object once more, in its handler or later
Again(x) ==
  /\ flight = 0 /\ x \in held
  /\ flight' = x
  /\ UNCHANGED <<frames, nexc, logged, held, recs, log, nev>>
  /\ Step("Again", [x |-> x])
Catch ==
  /\ flight # 0 /\ frames # <<>> /\ Top.f = "try"
  /\ held' = held \cup {flight}
  /\ frames' = Append(Rest, [f |-> "handler", x |-> flight])
  /\ flight' = 0
  /\ UNCHANGED <<nexc, logged, recs, log, nev>>
  /\ Step("Catch", <<>>)

Place(f) == IF f.f = "call" THEN {"all", f.kind} ELSE {"all"}
Record(x, places) ==
  IF x \in logged THEN UNCHANGED <<logged, recs>>
  ELSE /\ logged' = logged \cup {x}
       /\ recs' = recs \cup {[x |-> x, p |-> p, at |-> at] : p \in Stores(frames), at \in places}

Unwind ==
  /\ flight # 0 /\ frames # <<>> /\ Top.f \notin {"try", "open"}
  /\ frames' = Rest
  /\ IF Top.f \in {"block", "call"} THEN Record(flight, Place(Top))
     ELSE UNCHANGED <<logged, recs>>
  /\ UNCHANGED <<flight, nexc, held, log, nev>>
  /\ Step("Unwind", <<>>)
\* nobody caught it
Hook ==
  /\ flight # 0 /\ Bottom
  /\ Record(flight, {"all"})
  /\ flight' = 0
  /\ UNCHANGED <<frames, nexc, held, log, nev>>
  /\ Step("Hook", <<>>)

\* ------------------------------------------------------------------ events
\* `fields` counts what the record holds: every keyword argument as given, the
\* positional ones together, and the description of the environment
Fields(as) == Cardinality(as) + 1
Log(id, as) ==
  /\ flight = 0 /\ nev < MaxEvents
  /\ nev' = nev + 1
  /\ UNCHANGED <<frames, flight, nexc, logged, held, recs>>
  /\ LET there == {p \in Stores(frames) : id # "" /\ \E r \in log : r.p = p /\ r.id = id} IN
       /\ there = {} \/ there = Stores(frames)
       /\ log' = IF there # {} THEN log
                 ELSE log \cup {[p |-> p, id |-> id, n |-> nev + 1, fields |-> Fields(as)]
                                 : p \in Stores(frames)}
       /\ ev' = [a |-> "Log", id |-> id, args |-> as, n |-> nev + 1,
                 o |-> Obs @@ [refused |-> there # {}]]

Init ==
  /\ frames = <<>> /\ flight = 0 /\ nexc = 0 /\ logged = {} /\ held = {}
  /\ recs = {} /\ log = {} /\ nev = 0 /\ ev = [a |-> "Init"]
  /\ PrintT(ToJson([k |-> "I", t |-> State]))

NextExc ==
  \/ \E p \in Portals : Open(p) \/ Block(p) \/ \E k \in Kinds : Call(k, p)
  \/ Try \/ Return \/ Raise \/ Catch \/ Unwind \/ Hook
  \/ \E x \in 1..MaxExc : Again(x)
NextLog ==
  \/ \E p \in Portals : Open(p) \/ Block(p) \/ \E k \in Kinds : Call(k, p)
  \/ Return
  \/ \E id \in EventNames, as \in ArgSets : Log(id, as)

Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> State, e |-> ev', t |-> State']))

\* --------------------------------------------------------------- properties
OncePerPlace == \A r, s \in recs : (r.x = s.x /\ r.p = s.p /\ r.at = s.at) => r = s
OnlyLogged == \A r \in recs : r.x \in logged
\* all portals that have an exception have it in the same places
SamePlaces == \A r, s \in recs : r.x = s.x => [s EXCEPT !.p = r.p] \in recs
NothingLost == [][recs \subseteq recs' /\ log \subseteq log']_vars
\* an exception never leaves a block or call unrecorded
LeavingRecords == [][(flight # 0 /\ Len(frames') < Len(frames) /\ Top.f \in {"block", "call"})
                      => flight \in logged']_vars
\* and a normal end of a block never records anything
NormalIsQuiet == [][(flight = 0 /\ flight' = 0) => recs' = recs]_vars
====
