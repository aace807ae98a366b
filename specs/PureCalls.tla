---- MODULE PureCalls ----
(* Pure functions called from each other and from outside, in several portals over
   several stores, in successive sessions: what runs, what is returned, what is stored,
   requested and recorded.

   A frame is one of
     block    a "with portal" block of the program
     run      the body of a pure function, running
     try      the body of a try statement of the program or of a function
   The program and the functions are arbitrary: at every point the innermost body may
   print, call, raise, return or (in the program) anything else below.
   A result is a version: 0 is none. Functions are deterministic (version 1) unless
   Drift, when they may also return another value (version 2).                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Calls, Portals, DiskOf, Always, Drift, MaxDepth, MaxRuns, MaxExc, MaxMarks, MaxSessions

VARIABLES frames, flight, fresh, known, res, req, runs, nexc, nmarks, nsess, ev
vars == <<frames, flight, fresh, known, res, req, runs, nexc, nmarks, nsess>>
St == [frames |-> frames, flight |-> flight, fresh |-> fresh, known |-> known, res |-> res, req |-> req,
       runs |-> runs, nexc |-> nexc, nmarks |-> nmarks, nsess |-> nsess]
View == vars

Disks == {DiskOf[p] : p \in Portals}
Range(s) == {s[i] : i \in 1..Len(s)}
Top == frames[Len(frames)]
Rest == SubSeq(frames, 1, Len(frames) - 1)
Running == {f \in Range(frames) : f.f = "run"}
InProgram == Running = {}
InBody == frames # <<>> /\ Top.f # "block"
OnTop == IF \E i \in 1..Len(frames) : frames[i].f = "run"
         THEN LET i == CHOOSE i \in 1..Len(frames) : frames[i].f = "run"
                           /\ \A j \in i+1..Len(frames) : frames[j].f # "run"
              IN frames[i].r
         ELSE 0
Here(p, c) == res[DiskOf[p]][c] # 0
Holders(c) == {q \in known : Here(q, c)}
Ready(c) == Holders(c) # {}
\* looking for a result brings it here
Brought(p, c) == IF Here(p, c) \/ ~Ready(c) THEN res
                 ELSE [res EXCEPT ![DiskOf[p]][c] = res[DiskOf[CHOOSE q \in Holders(c) : TRUE]][c]]

Current(fs) == LET s == SelectSeq(fs, LAMBDA f : f.f # "try") IN IF s = <<>> THEN "none" ELSE s[Len(s)].p
Obs == [current |-> Current(frames'), nruns |-> Len(runs'), flight |-> flight']
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs @@ Obs]
Room == flight = 0 /\ Len(frames) < MaxDepth

\* ------------------------------------------------------------------- program
Block(p) ==
  /\ Room /\ p \in known /\ InProgram /\ (frames # <<>> => Top.f = "block")
  /\ frames' = Append(frames, [f |-> "block", p |-> p])
  /\ UNCHANGED <<flight, fresh, known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("Block", [p |-> p], <<>>)
Leave ==
  /\ flight = 0 /\ frames # <<>> /\ Top.f = "block"
  /\ frames' = Rest
  /\ UNCHANGED <<flight, fresh, known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("Leave", <<>>, <<>>)
\* the next session knows only the portals K
Restart(K) ==
  /\ flight = 0 /\ frames = <<>> /\ nsess < MaxSessions /\ K # {}
  /\ nsess' = nsess + 1 /\ known' = K
  /\ UNCHANGED <<frames, flight, fresh, res, req, runs, nexc, nmarks>>
  /\ Step("Restart", [K |-> K], <<>>)
Try ==
  /\ Room /\ (frames # <<>> => Top.f # "try")
  /\ frames' = Append(frames, [f |-> "try"])
  /\ UNCHANGED <<flight, fresh, known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("Try", <<>>, <<>>)
EndTry ==
  /\ flight = 0 /\ frames # <<>> /\ Top.f = "try"
  /\ frames' = Rest
  /\ UNCHANGED <<flight, fresh, known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("EndTry", <<>>, <<>>)

\* --------------------------------------------------------------------- calls
\* a call whose result is known somewhere, and is not to be checked
Cached(p, c) ==
  /\ Room /\ p \in known /\ Ready(c) /\ ~Always
  /\ res' = Brought(p, c)
  /\ UNCHANGED <<frames, flight, fresh, known, req, runs, nexc, nmarks, nsess>>
  /\ Step("Cached", [p |-> p, c |-> c], [ret |-> res'[DiskOf[p]][c]])
Begin(p, c) ==
  /\ Room /\ p \in known /\ Len(runs) < MaxRuns
  /\ Ready(c) => Always
  /\ \A f \in Running : f.c # c
  /\ frames' = Append(frames, [f |-> "run", p |-> p, c |-> c, r |-> Len(runs) + 1])
  /\ runs' = Append(runs, [c |-> c, d |-> DiskOf[p], out |-> <<>>, res |-> 0, exc |-> {}, seen |-> {}, open |-> TRUE])
  /\ res' = Brought(p, c)
  /\ req' = [req EXCEPT ![DiskOf[p]] = IF Ready(c) THEN @ \ {c} ELSE @ \cup {c}]
  /\ UNCHANGED <<flight, fresh, known, nexc, nmarks, nsess>>
  /\ Step("Begin", [p |-> p, c |-> c], <<>>)
Say ==
  /\ flight = 0 /\ nmarks < MaxMarks
  /\ nmarks' = nmarks + 1
  /\ runs' = [r \in 1..Len(runs) |-> IF \E f \in Running : f.r = r
                                     THEN [runs[r] EXCEPT !.out = Append(@, nmarks + 1)] ELSE runs[r]]
  /\ UNCHANGED <<frames, flight, fresh, known, res, req, nexc, nsess>>
  /\ Step("Say", [m |-> nmarks + 1], <<>>)
Return(v) ==
  /\ flight = 0 /\ frames # <<>> /\ Top.f = "run"
  /\ v = 1 \/ (v = 2 /\ Drift)
  /\ LET d == DiskOf[Top.p]  c == Top.c  r == Top.r  stored == res[d][c] IN
     /\ runs' = [runs EXCEPT ![r].res = v, ![r].open = FALSE]
     /\ IF stored \in {0, v}
        THEN /\ res' = [res EXCEPT ![d][c] = v]
             /\ req' = [req EXCEPT ![d] = @ \ {c}]
             /\ flight' = 0 /\ fresh' = FALSE
             /\ nexc' = nexc
        ELSE /\ UNCHANGED <<res, req>>           \* the check fails
             /\ nexc' = nexc + 1 /\ flight' = nexc + 1 /\ fresh' = FALSE
     /\ frames' = Rest
     /\ UNCHANGED <<known, nmarks, nsess>>
     /\ Step("Return", [v |-> v, differs |-> stored \notin {0, v}], [ret |-> IF stored \in {0, v} THEN v ELSE 0])
Raise ==
  /\ flight = 0 /\ nexc < MaxExc /\ InBody
  /\ nexc' = nexc + 1 /\ flight' = nexc + 1 /\ fresh' = TRUE
  /\ UNCHANGED <<frames, known, res, req, runs, nmarks, nsess>>
  /\ Step("Raise", [x |-> nexc + 1], <<>>)
Unwind ==
  /\ flight # 0 /\ frames # <<>> /\ Top.f # "try"
  /\ frames' = Rest
  /\ fresh' = FALSE
  \* the exception belongs to the innermost run it leaves; a failed check to none
  \* its trace is seen in the output of every run around
  /\ runs' = IF Top.f # "run" THEN runs
             ELSE [r \in 1..Len(runs) |->
                     LET R == [runs[r] EXCEPT !.seen = IF \E f \in Running : f.r = r
                                                       THEN @ \cup {flight} ELSE @] IN
                     IF r = Top.r THEN [R EXCEPT !.exc = IF fresh THEN {flight} ELSE {},
                                                 !.open = FALSE]
                     ELSE R]
  /\ UNCHANGED <<flight, known, res, req, nexc, nmarks, nsess>>
  /\ Step("Unwind", <<>>, <<>>)
Catch ==
  /\ flight # 0 /\ frames # <<>> /\ Top.f = "try"
  /\ frames' = Rest /\ flight' = 0 /\ fresh' = FALSE
  /\ UNCHANGED <<known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("Catch", <<>>, <<>>)
\* nobody caught it; the program goes on with its next statement
Over ==
  /\ flight # 0 /\ frames = <<>>
  /\ flight' = 0 /\ fresh' = FALSE
  /\ UNCHANGED <<frames, known, res, req, runs, nexc, nmarks, nsess>>
  /\ Step("Over", <<>>, <<>>)

\* -------------------------------------------------------------------- requests
Swarm(p, c) ==
  /\ Room /\ p \in known
  /\ res' = Brought(p, c)
  /\ req' = [req EXCEPT ![DiskOf[p]] = IF Ready(c) THEN @ \ {c} ELSE @ \cup {c}]
  /\ UNCHANGED <<frames, flight, fresh, known, runs, nexc, nmarks, nsess>>
  /\ Step("Swarm", [p |-> p, c |-> c], <<>>)

\* ------------------------------------------------------------------- questions
\* is it ready in this portal, and what is it?
Ask(p, c) ==
  /\ Room /\ p \in known
  /\ res' = Brought(p, c)
  /\ UNCHANGED <<frames, flight, fresh, known, req, runs, nexc, nmarks, nsess>>
  /\ Step("Ask", [p |-> p, c |-> c],
          [ready |-> Ready(c), ret |-> res'[DiskOf[p]][c], requested |-> c \in req[DiskOf[p]]])
\* the records of all runs of a call in a store
Mine(d, c) == {r \in 1..Len(runs) : runs[r].c = c /\ runs[r].d = d}
Shown(r) == [run |-> r, out |-> runs[r].out, res |-> runs[r].res, exc |-> runs[r].exc]
            @@ (IF Always THEN <<>> ELSE [seen |-> runs[r].seen])
MaxOf(S) == CHOOSE r \in S : \A q \in S : q <= r
Records(p, c) ==
  /\ Room /\ p \in known /\ \A r \in Mine(DiskOf[p], c) : ~runs[r].open
  /\ UNCHANGED vars
  /\ LET S == Mine(DiskOf[p], c)  X == {r \in S : runs[r].exc # {}} IN
     Step("Records", [p |-> p, c |-> c],
          [records |-> [i \in 1..Cardinality(S) |->
                            Shown(CHOOSE r \in S : Cardinality({q \in S : q <= r}) = i)],
           last |-> IF S = {} THEN 0 ELSE MaxOf(S),
           out |-> IF S = {} THEN <<>> ELSE runs[MaxOf(S)].out,
           crash |-> IF X = {} THEN {} ELSE runs[MaxOf(X)].exc])

Init == /\ frames = <<>> /\ flight = 0 /\ fresh = FALSE /\ known = Portals
        /\ res = [d \in Disks |-> [c \in Calls |-> 0]] /\ req = [d \in Disks |-> {}]
        /\ runs = <<>> /\ nexc = 0 /\ nmarks = 0 /\ nsess = 0 /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> St]))
Next ==
  \/ \E p \in Portals : Block(p)
       \/ \E c \in Calls : Cached(p, c) \/ Begin(p, c) \/ Swarm(p, c) \/ Ask(p, c) \/ Records(p, c)
  \/ Leave \/ Try \/ EndTry \/ Say \/ Raise \/ Unwind \/ Catch \/ Over
  \/ \E v \in 1..2 : Return(v)
  \/ \E K \in SUBSET Portals : Restart(K)
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

\* ------------------------------------------------------------------ properties
Ran(d, c) == {r \in Mine(d, c) : runs[r].res # 0}
\* at most one run of a call completes in a store, unless checks are due
OnceOnly == ~Always => \A d \in Disks, c \in Calls : Cardinality(Ran(d, c)) <= 1
\* a stored result was returned by a run of this very call
Genuine == \A d \in Disks, c \in Calls : res[d][c] # 0 =>
             \E r \in 1..Len(runs) : runs[r].c = c /\ runs[r].res = res[d][c]
\* a result, once there, stays
Stays == [][\A d \in Disks, c \in Calls : res[d][c] # 0 => res'[d][c] = res[d][c]]_vars
\* a failed run leaves its request
KeepsRequest == [][\A d \in Disks : (flight # 0 /\ Len(frames') < Len(frames)) => req'[d] = req[d]]_vars
\* everything a record says is from its own run
OwnRecords == \A q, r \in 1..Len(runs) : q # r => runs[q].exc \cap runs[r].exc = {}
TypeOK == known \subseteq Portals /\ \A d \in Disks : req[d] \subseteq Calls
====
