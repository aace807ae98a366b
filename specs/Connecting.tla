----------------------------- MODULE Connecting -----------------------------
(***************************************************************************)
(* Connecting to portals from the top level (C28): which portals a program *)
(* has, which one it works with, which workers get started and on whose    *)
(* behalf, and what stays in the storage when it starts anew.              *)
(*                                                                         *)
(* portals[i] = [dir, n, kind]; dir "home" is where the default portal is. *)
(* rec[d] is the runtime record in d: 0 none, i the portal i's, -1 one     *)
(* left behind by a process that was killed.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, Workers, Xs, MaxPortals, MaxDepth, MaxSteps
ASSUME "home" \in Dirs

VARIABLES portals, hist, rec, res, req, fn, step, ev
vars == <<portals, hist, rec, res, req, fn, step>>
St == [portals |-> portals, hist |-> hist, rec |-> rec, res |-> res, req |-> req, fn |-> fn, n |-> step]
View == <<portals, hist, rec, res, req, fn>>

N(ps) == Len(ps)
Defaults(ps) == {i \in DOMAIN ps : ps[i].kind = "default"}
\* the portal used where none is named; 0: the default one, still to be made
Best(h, ps) == IF h # <<>> THEN h[Len(h)] ELSE N(ps)

Row(p) == [dir |-> p.dir, n |-> p.n, kind |-> p.kind,
           results |-> Cardinality(res'[p.dir]), queue |-> Cardinality(req'[p.dir])]
Look == [portals |-> [i \in DOMAIN portals' |-> Row(portals'[i])],
         current |-> IF hist' = <<>> THEN 0 ELSE hist'[Len(hist')],
         newest |-> N(portals'),
         live |-> [i \in DOMAIN portals' |-> rec'[portals'[i].dir] = i],
         recs_s |-> {d \in Dirs : rec'[d] # 0}]
Step(name, args, obs) == /\ step < MaxSteps /\ step' = step + 1
                         /\ ev' = [a |-> name] @@ args @@ [o |-> obs @@ Look]

\* what is left of the records when the portals of the program are let go
LetGo(r) == [d \in Dirs |-> IF r[d] > 0 THEN 0 ELSE r[d]]
Swarm(d, w) == [dir |-> d, n |-> w, kind |-> "swarm"]
TheDefault == [dir |-> "home", n |-> 3, kind |-> "default"]
-----------------------------------------------------------------------------
Init == /\ portals = <<>> /\ hist = <<>> /\ rec = [d \in Dirs |-> 0] /\ fn = 0 /\ step = 0
        /\ res = [d \in Dirs |-> {}] /\ req = [d \in Dirs |-> {}]
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))

\* starting anew with one portal, which stays current; the storage keeps what it has
Initialize(d) ==
  /\ portals' = <<Swarm(d, 3)>> /\ hist' = <<1>>
  /\ rec' = [LetGo(rec) EXCEPT ![d] = 1] /\ fn' = 0
  /\ UNCHANGED <<res, req>>
  /\ Step("Initialize", [d |-> d], [launched |-> 3, report |-> Row(Swarm(d, 3))])

\* one more portal; an open block stays the one the program works with
Connect(d, w) ==
  /\ N(portals) < MaxPortals
  /\ portals' = Append(portals, Swarm(d, w))
  /\ rec' = [rec EXCEPT ![d] = N(portals) + 1]
  /\ UNCHANGED <<hist, res, req, fn>>
  /\ Step("Connect", [d |-> d, w |-> w], [launched |-> w, report |-> Row(Swarm(d, w))])

\* the default portal is made once
MakeDefault == 
  IF Defaults(portals) = {}
  THEN portals' = Append(portals, TheDefault) /\ rec' = [rec EXCEPT !["home"] = N(portals) + 1]
  ELSE UNCHANGED <<portals, rec>>
New == IF Defaults(portals) = {} THEN 3 ELSE 0     \* workers it takes to have it
ConnectDefault ==
  /\ N(portals) < MaxPortals \/ Defaults(portals) # {}
  /\ MakeDefault /\ UNCHANGED <<hist, res, req, fn>>
  /\ Step("ConnectDefault", <<>>, [launched |-> New, report |-> Row(TheDefault)])

Enter(i) ==
  /\ Len(hist) < MaxDepth /\ hist' = Append(hist, i)
  /\ UNCHANGED <<portals, rec, res, req, fn>>
  /\ Step("Enter", [i |-> i], [launched |-> 0])
Exit ==
  /\ hist # <<>> /\ hist' = SubSeq(hist, 1, Len(hist) - 1)
  /\ UNCHANGED <<portals, rec, res, req, fn>>
  /\ Step("Exit", [i |-> hist[Len(hist)]], [launched |-> 0])

\* a function made without naming a portal belongs to the one the program works with
Define ==
  /\ fn = 0
  /\ LET b == Best(hist, portals) IN
       IF b = 0 THEN MakeDefault /\ fn' = 1 ELSE UNCHANGED <<portals, rec>> /\ fn' = b
  /\ UNCHANGED <<hist, res, req>>
  /\ Step("Define", <<>>, [launched |-> IF Best(hist, portals) = 0 THEN 3 ELSE 0, uses |-> fn'])
\* what any of the program's portals has got is not computed again, but taken over
Within(x) == \E i \in DOMAIN portals : x \in res[portals[i].dir]
Call(x) ==
  /\ fn # 0
  /\ LET d == portals[fn].dir IN
     /\ res' = [res EXCEPT ![d] = @ \cup {x}]
     \* a request is served by the run, or found served when it is next looked at
     /\ req' = [req EXCEPT ![d] = IF Within(x) THEN @ ELSE @ \ {x}]
     /\ UNCHANGED <<portals, hist, rec, fn>>
     /\ Step("Call", [x |-> x], [launched |-> 0, value |-> x, ran |-> IF Within(x) THEN 0 ELSE 1])
Ask(x) ==
  /\ fn # 0
  /\ LET d == portals[fn].dir IN
     /\ res' = [res EXCEPT ![d] = IF Within(x) THEN @ \cup {x} ELSE @]
     /\ req' = [req EXCEPT ![d] = IF Within(x) THEN @ \ {x} ELSE @ \cup {x}]
     /\ UNCHANGED <<portals, hist, rec, fn>>
     /\ Step("Ask", [x |-> x], [launched |-> 0, ready |-> Within(x)])

\* the program ends; its portals let go of their records, unless it is killed
End(how) ==
  /\ portals # <<>>
  /\ portals' = <<>> /\ hist' = <<>> /\ fn' = 0
  /\ rec' = IF how = "killed" THEN [d \in Dirs |-> IF rec[d] # 0 THEN -1 ELSE 0] ELSE LetGo(rec)
  /\ UNCHANGED <<res, req>>
  /\ Step("End", [how |-> how], [launched |-> 0])

Next ==
  \/ \E d \in Dirs : Initialize(d) \/ \E w \in Workers : Connect(d, w)
  \/ ConnectDefault \/ \E i \in DOMAIN portals : Enter(i)
  \/ Exit \/ Define \/ \E x \in Xs : Call(x) \/ Ask(x)
  \/ End("normal") \/ End("killed")
One(S) == {RandomElement(IF step < 0 THEN {} ELSE S)}
NextSim ==
  \E r \in One(1..16), d \in One(Dirs), w \in One(Workers), x \in One(Xs) :
    IF r = 1 THEN Initialize(d)
    ELSE IF r = 2 /\ portals # <<>> THEN End("normal") \/ End("killed")
    ELSE IF r <= 5 /\ N(portals) < MaxPortals THEN Connect(d, w)
    ELSE IF r = 6 /\ (N(portals) < MaxPortals \/ Defaults(portals) # {}) THEN ConnectDefault
    ELSE IF r <= 8 /\ portals # <<>> /\ Len(hist) < MaxDepth THEN \E i \in One(DOMAIN portals) : Enter(i)
    ELSE IF r = 9 /\ hist # <<>> THEN Exit
    ELSE IF fn = 0 THEN Define
    ELSE IF r = 10 THEN Ask(x) ELSE Call(x)
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))
-----------------------------------------------------------------------------
\* a record names a portal over that very storage
RecordsOwned == \A d \in Dirs : rec[d] > 0 => rec[d] <= N(portals) /\ portals[rec[d]].dir = d
OneDefault == Cardinality(Defaults(portals)) <= 1
\* as long as a program has a portal over a storage, its last one's workers work on
LastLive == \A d \in Dirs : LET S == {i \in DOMAIN portals : portals[i].dir = d} IN
              S # {} => rec[d] = CHOOSE i \in S : \A j \in S : j <= i
\* nothing but the calls asked for changes what is stored
Kept == [][/\ \A d \in Dirs : res[d] \subseteq res'[d]
           /\ (res' # res \/ req' # req) => ev'.a \in {"Call", "Ask"}]_vars
=============================================================================
