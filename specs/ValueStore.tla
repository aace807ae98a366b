---- MODULE ValueStore ----
(* Values stored in portals, and the addresses they are asked for by.

   A portal object works over a disk; several may work over one. Disks outlive
   sessions, addresses do so as text or pickled. Reading a value brings it to the
   address's own portal.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Portals, Disk,     \* Disk[p]: what portal object p stores to
          Values, Addrs, MaxDepth, MaxSessions
None == "none"
Disks == {Disk[p] : p \in Portals}

VARIABLES held,      \* held[d]: the values on disk d
          known,     \* portal objects of this session
          stack,     \* those entered
          addr,      \* addr[x]: None, or the value and portal of the address
          down,      \* disks that cannot be reached
          session, ev
vars == <<held, known, stack, addr, down, session>>
St == [held |-> held, known |-> known, stack |-> stack, addr |-> addr, down |-> down,
       session |-> session]
View == vars
NoAddr == [v |-> None, p |-> None]

Top == IF stack = <<>> THEN None ELSE stack[Len(stack)]
KnownDisks == {Disk[p] : p \in known}
Up == KnownDisks \ down
Has(d, v) == v \in held[d]
Available(v) == \E d \in Up : Has(d, v)
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> [held |-> held'] @@ obs]
Put(d, v) == held' = [held EXCEPT ![d] = @ \cup {v}]

Open(p) ==
  /\ p \notin known /\ down = {}
  /\ known' = known \cup {p}
  /\ UNCHANGED <<held, stack, addr, down, session>>
  /\ Step("Open", [p |-> p], <<>>)
Enter(p) ==
  /\ p \in known /\ Len(stack) < MaxDepth
  /\ stack' = Append(stack, p)
  /\ UNCHANGED <<held, known, addr, down, session>>
  /\ Step("Enter", [p |-> p], <<>>)
Leave ==
  /\ stack # <<>>
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<held, known, addr, down, session>>
  /\ Step("Leave", <<>>, <<>>)

\* a value gets an address, in the portal named or the current one
Make(x, v, p) ==
  /\ addr[x] = NoAddr
  /\ IF p = None THEN Top # None ELSE p \in known
  /\ LET q == IF p = None THEN Top ELSE p IN
     /\ Disk[q] \notin down
     /\ Put(Disk[q], v)
     /\ addr' = [addr EXCEPT ![x] = [v |-> v, p |-> q]]
  /\ UNCHANGED <<known, stack, down, session>>
  /\ Step("Make", [x |-> x, v |-> v, p |-> p], [portal |-> addr'[x].p])

\* an address restored from text, in the portal named or the current one
Need(q, v) == Has(Disk[q], v) \/ Available(v)
Revive(x, v, p, check) ==
  /\ addr[x] = NoAddr /\ down = {}
  /\ IF p = None THEN Top # None ELSE p \in known
  /\ LET q == IF p = None THEN Top ELSE p
         ok == ~check \/ Need(q, v) IN
     /\ IF check /\ ok THEN Put(Disk[q], v) ELSE UNCHANGED held
     /\ addr' = IF ok THEN [addr EXCEPT ![x] = [v |-> v, p |-> q]] ELSE addr
     /\ Step("Revive", [x |-> x, v |-> v, p |-> p, check |-> check], [ok |-> ok])
  /\ UNCHANGED <<known, stack, down, session>>
\* restored from its pickled form; outside every block it has no portal yet, and gets
\* one when first used
Unpickle(x, v) ==
  /\ addr[x] = NoAddr
  /\ addr' = [addr EXCEPT ![x] = [v |-> v, p |-> Top]]
  /\ UNCHANGED <<held, known, stack, down, session>>
  /\ Step("Unpickle", [x |-> x, v |-> v], <<>>)
Copy(x, y) ==
  /\ addr[x] = NoAddr /\ addr[y] # NoAddr /\ addr[y].p # None
  /\ addr' = [addr EXCEPT ![x] = addr[y]]
  /\ UNCHANGED <<held, known, stack, down, session>>
  /\ Step("Copy", [x |-> x, y |-> y], [portal |-> addr[y].p])
Drop(x) ==
  /\ addr[x] # NoAddr
  /\ addr' = [addr EXCEPT ![x] = NoAddr]
  /\ UNCHANGED <<held, known, stack, down, session>>
  /\ Step("Drop", [x |-> x], <<>>)

Own(x) == IF addr[x].p = None THEN Top ELSE addr[x].p
Bind(x) == addr' = [addr EXCEPT ![x].p = Own(x)]

\* an address made from another one, for a portal: the value is brought there
Convert(x, y, p) ==
  /\ addr[x] = NoAddr /\ addr[y] # NoAddr /\ down = {}
  /\ p \in known /\ addr[y].p # None
  /\ LET v == addr[y].v IN
     /\ addr' = [addr EXCEPT ![x] = [v |-> v, p |-> p]]
     /\ IF p # addr[y].p /\ ~Has(Disk[p], v) /\ Available(v)
        THEN held' = [d \in Disks |-> held[d] \cup (IF d \in {Disk[p], Disk[addr[y].p]} THEN {v} ELSE {})]
        ELSE UNCHANGED held
     /\ UNCHANGED <<known, stack, down, session>>
     \* when there is no such value anywhere this may be refused
     /\ Step("Convert", [x |-> x, y |-> y, p |-> p, may_fail |-> ~Available(v)], <<>>)

Ready(x) ==
  /\ addr[x] # NoAddr /\ Own(x) # None /\ down = {}
  /\ LET v == addr[x].v  d == Disk[Own(x)] IN
     /\ IF Available(v) THEN Put(d, v) ELSE UNCHANGED held
     /\ Bind(x) /\ UNCHANGED <<known, stack, down, session>>
     /\ Step("Ready", [x |-> x], [ready |-> Available(v)])
\* the value, or an error; never another value
Get(x) ==
  /\ addr[x] # NoAddr /\ Own(x) # None
  /\ LET v == addr[x].v  d == Disk[Own(x)] IN
     /\ d \notin down
     /\ IF Available(v) THEN Put(d, v) ELSE UNCHANGED held
     /\ Bind(x) /\ UNCHANGED <<known, stack, down, session>>
     /\ Step("Get", [x |-> x], [got |-> IF Available(v) THEN v ELSE "error"])

Outage(d) ==
  /\ d \in KnownDisks \ down /\ Cardinality(down) = 0 /\ known = Portals
  /\ down' = {d}
  /\ UNCHANGED <<held, known, stack, addr, session>>
  /\ Step("Outage", [d |-> d], <<>>)
Repair ==
  /\ down # {} /\ down' = {}
  /\ UNCHANGED <<held, known, stack, addr, session>>
  /\ Step("Repair", <<>>, <<>>)

\* a new session, over the same disks; a disk may have lost a value by then
Restart(d, v) ==
  /\ known # {} /\ stack = <<>> /\ down = {} /\ session < MaxSessions
  /\ held' = IF d = None THEN held ELSE [held EXCEPT ![d] = @ \ {v}]
  /\ d # None => Has(d, v)
  /\ known' = {} /\ addr' = [x \in Addrs |-> NoAddr]
  /\ session' = session + 1
  /\ UNCHANGED <<stack, down>>
  /\ Step("Restart", [d |-> d, v |-> v], <<>>)

Init == /\ held = [d \in Disks |-> {}] /\ known = {} /\ stack = <<>> /\ down = {}
        /\ addr = [x \in Addrs |-> NoAddr] /\ session = 1
        /\ ev = [a |-> "Init"]
        /\ PrintT(ToJson([k |-> "I", t |-> St]))
PN == Portals \cup {None}
Next == \/ \E p \in Portals : Open(p) \/ Enter(p)
        \/ Leave \/ Repair
        \/ \E x \in Addrs, v \in Values, p \in PN : Make(x, v, p)
        \/ \E x \in Addrs, v \in Values, p \in PN, c \in BOOLEAN : Revive(x, v, p, c)
        \/ \E x \in Addrs, v \in Values : Unpickle(x, v)
        \/ \E x, y \in Addrs : x # y /\ Copy(x, y)
        \/ \E x, y \in Addrs, p \in Portals : x # y /\ Convert(x, y, p)
        \/ \E x \in Addrs : Ready(x) \/ Get(x) \/ Drop(x)
        \/ \E d \in Disks : Outage(d)
        \/ Restart(None, None) \/ \E d \in Disks, v \in Values : Restart(d, v)
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

TypeOK == /\ held \in [Disks -> SUBSET Values] /\ known \subseteq Portals
          /\ \A i \in 1..Len(stack) : stack[i] \in known
          /\ \A x \in Addrs : addr[x].p \in known \cup {None}
\* nothing stored disappears, except from a disk between sessions
Kept == [][session' = session => \A d \in Disks : held[d] \subseteq held'[d]]_<<vars, ev>>
\* nothing comes from nowhere
NoInvention == [][\A d \in Disks : \A v \in held'[d] \ held[d] :
                    ev'.a = "Make" \/ \E e \in Disks : Has(e, v)]_<<vars, ev>>
\* what has been read stays available without any other portal
Brought == [][(ev'.a \in {"Get", "Ready"} /\ (ev'.a = "Get" => ev'.o.got # "error")
                 /\ (ev'.a = "Ready" => ev'.o.ready))
               => addr'[ev'.x].v \in held'[Disk[addr'[ev'.x].p]]]_<<vars, ev>>
====
