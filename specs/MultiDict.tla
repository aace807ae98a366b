------------------------------ MODULE MultiDict ------------------------------
(***************************************************************************)
(* Dictionaries of several file types over one place (C29). Each object    *)
(* has parts, one per file type; a part is a dictionary of its own, which  *)
(* all objects with that part share, each with its own settings. What is   *)
(* said for one part prevails over what is said for all of them.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Objects, Types, Keys, Texts, Others, MaxSteps
VARIABLES store, made, n, ev
vars == <<store, made, n>>
None == "none"
Values == Texts \cup Others
Flag == {"unset", "yes", "no"}
OnlyText == {"txt", "py"}            \* types of files that hold nothing else
Whole == {"get", "set", "del", "pickle", "copy", "deep copy", "joblib"}
Malformed == {"class", "shared", "part"}

St == [store |-> store, made |-> made, n |-> n]
View == vars
One(S) == {RandomElement(IF n < 0 THEN {} ELSE S)}

(* Settings of the parts of an object: how they are said, what they amount to. *)
Effective(shared, own) == IF own # "unset" THEN own = "yes" ELSE shared = "yes"
Open(o, ts, shared, imm, text, type) ==
  /\ made[o] = <<>>
  /\ made' = [made EXCEPT ![o] = [t \in ts |->
       [imm |-> Effective(shared, imm[t]), text |-> t \in OnlyText \/ text[t]]]]
  /\ UNCHANGED store

See(t, s) == [k \in Keys |->
                IF s.text /\ store'[t][k] \in Others THEN "unreadable" ELSE store'[t][k]]
Obs == [parts |-> [o \in Objects |->
          [t \in DOMAIN made'[o] |-> See(t, made'[o][t])]]]
Step(a, args, o) == ev' = [a |-> a] @@ args @@ [o |-> o @@ Obs]
More == n < MaxSteps /\ n' = n + 1

Create(o, ts, shared, imm, text, type) ==
  /\ More /\ Open(o, ts, shared, imm, text, type)
  /\ Step("Create", [obj |-> o, shared |-> shared, type |-> type,
       own |-> [t \in ts |-> [imm |-> imm[t], text |-> t \in OnlyText \/ text[t]]]], [raised |-> FALSE])
CreateBad(o, what) ==
  /\ More /\ made[o] = <<>> /\ UNCHANGED <<store, made>>
  /\ Step("CreateBad", [obj |-> o, what |-> what], [raised |-> TRUE])

Set(o, t, k, v) ==
  LET s == made[o][t] ok == ~(s.text /\ v \notin Texts) /\ ~(s.imm /\ store[t][k] # None) IN
  /\ More /\ UNCHANGED made
  /\ store' = IF ok THEN [store EXCEPT ![t][k] = v] ELSE store
  /\ Step("Set", [obj |-> o, part |-> t, key |-> k, val |-> v], [raised |-> ~ok])
Del(o, t, k) ==
  LET ok == ~made[o][t].imm /\ store[t][k] # None IN
  /\ More /\ UNCHANGED made
  /\ store' = IF ok THEN [store EXCEPT ![t][k] = None] ELSE store
  /\ Step("Del", [obj |-> o, part |-> t, key |-> k], [raised |-> ~ok])
Clear(o, t) ==
  LET ok == ~made[o][t].imm IN
  /\ More /\ UNCHANGED made
  /\ store' = IF ok THEN [store EXCEPT ![t] = [k \in Keys |-> None]] ELSE store
  /\ Step("Clear", [obj |-> o, part |-> t], [raised |-> ~ok])
(* The whole is neither a dictionary nor picklable.                         *)
Refuse(o, what) ==
  /\ More /\ UNCHANGED <<store, made>>
  /\ Step("Refuse", [obj |-> o, what |-> what], [raised |-> TRUE])
Forget(o) == /\ More /\ made' = [made EXCEPT ![o] = <<>>] /\ UNCHANGED store
             /\ Step("Forget", [obj |-> o], [raised |-> FALSE])

Init == /\ store = [t \in Types |-> [k \in Keys |-> None]] /\ made = [o \in Objects |-> <<>>] /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
On(o, t) == made[o] # <<>> /\ t \in DOMAIN made[o]

Use(os, ts, ks, vs) == \E o \in os, t \in ts : On(o, t) /\
   \/ \E k \in ks : Del(o, t, k) \/ \E v \in vs : Set(o, t, k, v)
   \/ Clear(o, t)
Next ==
  \/ \E o \in Objects, ts \in SUBSET Types : ts # {} /\
       \E shared \in Flag, imm \in [Types -> Flag], text \in [Types -> BOOLEAN] :
         Create(o, ts, shared, [t \in ts |-> imm[t]], text, "unset")
  \/ Use(Objects, Types, Keys, Values)
  \/ \E o \in Objects : made[o] # <<>> /\ (Forget(o) \/ \E w \in Whole : Refuse(o, w))
  \/ \E o \in Objects, w \in Malformed : CreateBad(o, w)
(* For simulation: one of each kind of step at random.                      *)
NextSome ==
  \/ \E o \in One(Objects), ts \in One((SUBSET Types) \ {{}}), shared \in One(Flag),
        imm \in One([Types -> Flag]), text \in One([Types -> BOOLEAN]), type \in One({"unset"} \cup Types) :
       Create(o, ts, shared, imm, text, type)
  \/ \E i \in 1..3 : Use(Objects, One(Types), One(Keys), One(Values))
  \/ \E o \in One(Objects), w \in One(Whole) : made[o] # <<>> /\ Refuse(o, w)
  \/ \E o \in One(Objects) : made[o] # <<>> /\ Forget(o)
  \/ \E o \in One(Objects), w \in One(Malformed) : CreateBad(o, w)
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

TypeOK == store \in [Types -> [Keys -> Values \cup {None}]]
(* A step with one part changes no other; items that only immutable parts   *)
(* have access to stay.                                                     *)
Apart == [][\A t \in Types : store'[t] # store[t] => "part" \in DOMAIN ev' /\ ev'.part = t]_<<vars, ev>>
Stays == [][\A t \in Types, k \in Keys :
              (store[t][k] # None /\ \A o \in Objects : On(o, t) => made[o][t].imm) => store'[t][k] = store[t][k]]_<<vars, ev>>
=============================================================================
