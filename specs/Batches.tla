------------------------------- MODULE Batches -------------------------------
(***************************************************************************)
(* Lists and grids of arguments of one pure function (C25), in two portals *)
(* over different storage: "here", where the batches are made, and         *)
(* "there". An element is what x and y are; 0 is not given. Elements of    *)
(* bad make the body fail.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Vals,       \* values of x and y, 0 among them
          MaxLen, MaxSteps, Malformed

VARIABLES bad, here, there, req, last, n, ev
vars == <<bad, here, there, req, last, n>>
St == [bad |-> bad, here |-> here, there |-> there, req |-> req, last |-> last, n |-> n]
View == vars

Elements == [x : Vals, y : Vals]
Range(s) == {s[i] : i \in DOMAIN s}
Ready(e) == e \in here \/ e \in there
Pos == Vals \ {0}

Obs == [req_s |-> req', here_s |-> here', there |-> Cardinality(there')]
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs @@ Obs]

(* The combinations of a grid: all choices of a position in each list; not  *)
(* given is one choice, to give nothing.                                    *)
Choices(g) == IF g.given THEN g.vals ELSE <<0>>
Product(gx, gy) == [k \in 1..(Len(Choices(gx)) * Len(Choices(gy))) |->
   [x |-> Choices(gx)[1 + ((k - 1) \div Len(Choices(gy)))], y |-> Choices(gy)[1 + ((k - 1) % Len(Choices(gy)))]]]

-----------------------------------------------------------------------------
Init == /\ bad \in {{}, {[x |-> 1, y |-> 1]}, {[x |-> 0, y |-> 0]}} /\ here = {} /\ there = {} /\ req = {}
        /\ last = <<>> /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))

More == n < MaxSteps /\ n' = n + 1
(* Elements that are looked for come here.                                  *)
Found(S) == here \cup (S \cap there)
Requested(S) == (req \ {e \in S : Ready(e)}) \cup {e \in S : ~Ready(e)}

Swarm(L, as) ==
  /\ More /\ here' = Found(Range(L)) /\ req' = Requested(Range(L))
  /\ last' = L /\ UNCHANGED <<bad, there>>
  /\ Step("Swarm", [batch |-> L, as |-> as], IF as.grid THEN [addrs_s |-> L] ELSE [addrs |-> L])
(* When one fails, some of the others may not have been run: the driver      *)
(* looks that each of them has either a result or a request, and runs it.    *)
Run(L, as) ==
  LET S == Range(L) fails == {e \in S : e \in bad /\ ~Ready(e)} IN
  /\ More
  /\ here' = Found(S) \cup (S \ fails)
  /\ req' = (Requested(S) \ S) \cup fails
  /\ last' = (IF fails = {} THEN L ELSE <<>>)
  /\ UNCHANGED <<bad, there>>
  /\ Step("Run", [batch |-> L, as |-> as],
       IF fails # {} THEN [raised |-> TRUE]
       ELSE IF as.grid THEN [addrs_s |-> L, values_s |-> L] ELSE [addrs |-> L, values |-> L])
List(L) == [grid |-> FALSE]
Grid(gx, gy) == [grid |-> TRUE, x |-> gx, y |-> gy]
(* Something that is no batch: refused, and nothing changes.                 *)
Refuse(m, op, L) ==
  /\ More /\ UNCHANGED <<bad, here, there, req, last>>
  /\ Step("Refuse", [what |-> m, op |-> op, batch |-> L], [refused |-> TRUE])
(* Single calls.                                                             *)
Call(e) ==
  LET fails == e \in bad /\ ~Ready(e) IN
  /\ More /\ here' = IF fails THEN here ELSE here \cup {e}
  /\ req' = IF fails THEN req \cup {e} ELSE IF Ready(e) THEN req ELSE req \ {e}
  /\ UNCHANGED <<bad, there, last>>
  /\ Step("Call", [e |-> e], [raised |-> fails])
CallThere(e) ==
  /\ More /\ e \notin bad /\ ~Ready(e) /\ there' = there \cup {e}
  /\ UNCHANGED <<bad, here, req, last>>
  /\ Step("CallThere", [e |-> e], <<>>)
(* Execute one of the addresses a batch returned.                            *)
Address(i) ==
  LET e == last[i] fails == e \in bad /\ ~Ready(e) IN
  /\ More /\ here' = IF fails THEN here ELSE here \cup {e}
  /\ req' = IF fails THEN req \cup {e} ELSE IF Ready(e) THEN req ELSE req \ {e}
  /\ UNCHANGED <<bad, there, last>>
  /\ Step("Address", [i |-> i], [raised |-> fails])

Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
RandSeq(S, k) == [i \in 1..RandomElement(0..k) |-> RandomElement(S)]
GridLists == {[given |-> FALSE, vals |-> <<>>]}
             \cup {[given |-> TRUE, vals |-> s] : s \in {q \in Seqs(Pos, 2) : q # <<>>}}
Batch(L, as) == Swarm(L, as) \/ Run(L, as)
NextAll == \/ \E L \in Seqs(Elements, MaxLen) : Batch(L, List(L))
           \/ \E gx, gy \in GridLists : Batch(Product(gx, gy), Grid(gx, gy))
           \/ \E e \in Elements : Call(e) \/ CallThere(e)
           \/ \E m \in Malformed, op \in {"swarm", "run"} : Refuse(m, op, <<[x |-> 0, y |-> 1]>>)
           \/ last # <<>> /\ Address(1)
RandGrid == IF RandomElement(1..4) = 1 THEN [given |-> FALSE, vals |-> <<>>]
            ELSE [given |-> TRUE, vals |-> Append(RandSeq(Pos, 2), RandomElement(Pos))]
Next == IF RandomElement(1..3) = 1 THEN
             LET gx == RandGrid gy == RandGrid IN Batch(Product(gx, gy), Grid(gx, gy))
        ELSE IF RandomElement(1..2) = 1 THEN LET L == RandSeq(Elements, MaxLen) IN Batch(L, List(L))
        ELSE IF RandomElement(1..4) = 1
             THEN Refuse(RandomElement(Malformed), RandomElement({"swarm", "run"}), RandSeq(Elements, MaxLen))
        ELSE IF last # <<>> /\ RandomElement(1..2) = 1 THEN Address(RandomElement(1..Len(last)))
        ELSE LET e == RandomElement(Elements) IN Call(e) \/ CallThere(e)
Spec == Init /\ [][NextAll]_vars

Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

TypeOK == here \subseteq Elements /\ there \subseteq Elements /\ req \subseteq Elements
\* what failed has no result; a request and a result there are only when the result came later
Sound == bad \cap (here \cup there) = {}
Pending == \A e \in req : e \notin here \/ e \in there
\* after a batch the elements are settled
Settled == [][ev'.a \in {"Swarm", "Run"} => \A e \in Range(ev'.batch) : (e \in here') # (e \in req')]_vars
=============================================================================
