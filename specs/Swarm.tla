---- MODULE Swarm ----
(* Requests of calls, and the background workers that serve them. Each worker goes
   on starting children, one at a time, as long as the session that started it is
   the one on record; a child looks for calls that are requested and need to be
   executed and can be, and executes one of them. There are
     g1, g2  two calls of one function,
     gt      a call with a guard, which holds while the gate is open,
     v2      a call of another version of the same function: what has loaded one of
             the versions can't load the other,
     f1      a call that fails,
   and entries among the requests that nothing can be made of. Times are in
   milliseconds.                                                                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Workers,      \* numbers; SessionOf says which session they belong to
          SessionOf, Sessions, Slack, Good
Calls == Good \union {"f1"}
Broken == {"b1", "b2", "b3"}
VARIABLES req, done,    \* entries among the requests, calls with results
          att, last,    \* of each call: attempts so far, and when the latest was
          gate, now,
          rec,          \* the session on record, 0: none
          ses,          \* the sessions under way
          w,            \* of each worker: "none", "rest", "child", "ended"
          ch            \* its child: st, c: what it executes, loaded: gt's function
vars == <<req, done, att, last, gate, now, rec, ses, w, ch>>
None == [st |-> "none", c |-> "-", loaded |-> FALSE]

SwInit == /\ req = {} /\ done = {} /\ att = [c \in Calls |-> 0] /\ last = [c \in Calls |-> 0]
          /\ gate \in BOOLEAN /\ now = 0 /\ rec = 0 /\ ses = {}
          /\ w = [k \in Workers |-> "none"] /\ ch = [k \in Workers |-> None]

Pow2(n) == 2 ^ n
Over(c, slack) == \/ att[c] = 0
                  \/ att[c] <= 5 /\ now - last[c] > 10000 * Pow2(att[c]) + slack
Needs(c, slack) == c \in (req \intersect Calls) \ done /\ Over(c, slack)
Loads(k) == ch[k].loaded \/ (("gt" \in Calls /\ Needs("gt", 0)) /\ ~gate)
(* what the child of k must find, if it looks, and what it may find *)
Must(k) == {c \in Calls : /\ Needs(c, Slack) /\ (c = "gt" => gate)
                          /\ (c = "v2" => ~Loads(k))}
May(k) == {c \in Calls : Needs(c, -Slack) /\ (c = "gt" => gate) /\ (c = "v2" => ~ch[k].loaded)}

(* sessions and users *)
Start(s) == /\ s \notin ses /\ \A k \in Workers : SessionOf[k] = s => w[k] = "none"
            /\ ses' = ses \union {s} /\ rec' = s
            /\ w' = [k \in Workers |-> IF SessionOf[k] = s THEN "rest" ELSE w[k]]
            /\ UNCHANGED <<req, done, att, last, gate, now, ch>>
End(s) == /\ s \in ses /\ ses' = ses \ {s} /\ rec' = (IF rec = s THEN 0 ELSE rec)
          /\ UNCHANGED <<req, done, att, last, gate, now, w, ch>>
Request(c) == /\ ses # {} /\ req' = (IF c \in done THEN req \ {c} ELSE req \union {c})
              /\ UNCHANGED <<done, att, last, gate, now, rec, ses, w, ch>>
Break(b) == req' = req \union {b} /\ UNCHANGED <<done, att, last, gate, now, rec, ses, w, ch>>
Flip == gate' = ~gate /\ UNCHANGED <<req, done, att, last, now, rec, ses, w, ch>>
Pass(d) == now' = now + d /\ UNCHANGED <<req, done, att, last, gate, rec, ses, w, ch>>
Call(c) == /\ ses # {} /\ c \in ({"g1", "g2"} \intersect Good) \ done /\ done' = done \union {c} /\ req' = req \ {c}
           /\ att' = [att EXCEPT ![c] = @ + 1] /\ last' = [last EXCEPT ![c] = now]
           /\ UNCHANGED <<gate, now, rec, ses, w, ch>>

(* workers *)
Launch(k) == /\ w[k] = "rest" /\ rec = SessionOf[k]
             /\ w' = [w EXCEPT ![k] = "child"] /\ ch' = [ch EXCEPT ![k] = [None EXCEPT !.st = "new"]]
             /\ UNCHANGED <<req, done, att, last, gate, now, rec, ses>>
Leave(k) == /\ w[k] = "rest" /\ rec # SessionOf[k] /\ w' = [w EXCEPT ![k] = "ended"]
            /\ UNCHANGED <<req, done, att, last, gate, now, rec, ses, ch>>
Join(k) == /\ w[k] = "child" /\ ch[k].st = "over"
           /\ w' = [w EXCEPT ![k] = "rest"] /\ ch' = [ch EXCEPT ![k] = None]
           /\ UNCHANGED <<req, done, att, last, gate, now, rec, ses>>
(* children *)
Looks(k) == ch[k].st \in {"new", "look"}
Run(k, c) == /\ Looks(k) /\ rec = SessionOf[k] /\ c \in May(k)
             /\ ch' = [ch EXCEPT ![k].st = "body", ![k].c = c]
             /\ att' = [att EXCEPT ![c] = @ + 1] /\ last' = [last EXCEPT ![c] = now]
             /\ UNCHANGED <<req, done, gate, now, rec, ses, w>>
Idle(k) == /\ Looks(k) /\ rec = SessionOf[k] /\ Must(k) = {}
           /\ ch' = [ch EXCEPT ![k].st = "look", ![k].loaded = Loads(k)]
           /\ UNCHANGED <<req, done, att, last, gate, now, rec, ses, w>>
Quit(k) == /\ \/ Looks(k) /\ (rec # SessionOf[k] \/ Must(k) = {})
              \/ ch[k].st = "look"
           /\ ch' = [ch EXCEPT ![k].st = "over"]
           /\ UNCHANGED <<req, done, att, last, gate, now, rec, ses, w>>
Finish(k) == /\ ch[k].st = "body" /\ ch' = [ch EXCEPT ![k].st = "over"]
             /\ LET c == ch[k].c IN
                IF c \in Good THEN done' = done \union {c} /\ req' = req \ {c}
                ELSE UNCHANGED <<done, req>>
             /\ UNCHANGED <<att, last, gate, now, rec, ses, w>>

(* --- checked by itself --- *)
CONSTANTS Breaks, Horizon
Child(k) == (\E c \in Calls : Run(k, c)) \/ Idle(k) \/ Quit(k) \/ Finish(k)
Worker(k) == Launch(k) \/ Leave(k) \/ Join(k)
MNext == \/ \E s \in Sessions : Start(s) \/ End(s)
         \/ \E c \in Calls : Request(c) \/ Call(c)
         \/ \E b \in Breaks : Break(b)
         \/ Flip
         \/ \E d \in {30000} : now + d <= Horizon /\ Pass(d)
         \/ \E k \in Workers : Worker(k) \/ Child(k)
Fair == /\ \A k \in Workers : /\ WF_vars(Worker(k)) /\ WF_vars(Finish(k)) /\ WF_vars(Quit(k))
        /\ \A c \in Calls : SF_vars(\E k \in Workers : Run(k, c))
MSpec == SwInit /\ [][MNext]_vars /\ Fair
MType == /\ req \subseteq Calls \union Broken /\ done \subseteq Good /\ rec \in Sessions \union {0}
         /\ \A k \in Workers : (ch[k].st = "none") = (w[k] # "child")
OneRecord == rec # 0 => rec \in ses
(* nothing runs twice at once, unless it takes very long *)
NotTwice == \A k, l \in Workers : (k # l /\ ch[k].st = "body" /\ ch[l].st = "body" /\ ch[k].c = ch[l].c)
               => now > 20000
OnlyAsked == [][\A k \in Workers : (ch'[k].st = "body" /\ ch[k].st # "body")
                  => /\ rec = SessionOf[k] /\ ch'[k].c \in req \ done /\ att[ch'[k].c] <= 5]_vars
Ends == \A k \in Workers : (w[k] # "none" /\ [](rec # SessionOf[k])) ~> (w[k] = "ended")
Reached(s) == [](rec = s /\ (\A k \in Workers : SessionOf[k] = s => w[k] # "none"))
Served == \A s \in Sessions, c \in Good :
            (<>Reached(s) /\ <>[](c \in req => (c = "gt" => gate)))
              => [](c \in req => <>(c \notin req))
====
