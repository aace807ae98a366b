------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* Guards of pure functions (C18). kk is a pure function; hh, another one, *)
(* calls kk with its own argument. Each has a set of guards, some of which *)
(* they may share. A guard lets an argument pass or not, and the world     *)
(* changes its mind. p says if what is known gets computed again.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Order,      \* the guards, in some order
          Args, MaxSteps, BadGuards

VARIABLES fg, hg, p, allow, done, req, n, ev
vars == <<fg, hg, p, allow, done, req, n>>
St == [fg |-> fg, hg |-> hg, p |-> p, allow |-> allow, done |-> done, req |-> req, n |-> n]
View == vars

Guards == {Order[i] : i \in DOMAIN Order}
Sorted(S) == SelectSeq(Order, LAMBDA g : g \in S)
Fns == {"kk", "hh"}
G(f) == IF f = "kk" THEN fg ELSE hg
Pass(f, x) == \A g \in G(f) : x \in allow[g]
Known(f, x) == <<f, x>> \in done

(* What a call does: the guards it calls and the bodies it runs, in order;  *)
(* what gets known; what stays pending.                                     *)
Ran(f) == [g |-> Sorted(G(f)), b |-> f]
Failed == [g |-> <<"failed">>, b |-> "-"]
Nothing == [ok |-> TRUE, log |-> <<>>, new |-> {}, pend |-> {}]
Refused(f, x) == [ok |-> FALSE, log |-> <<Failed>>, new |-> {}, pend |-> {<<f, x>>}]
CallK(x) == IF Known("kk", x) /\ p = 0 THEN Nothing
            ELSE IF ~Pass("kk", x) THEN Refused("kk", x)
            ELSE [ok |-> TRUE, log |-> <<Ran("kk")>>, new |-> {<<"kk", x>>}, pend |-> {}]
CallH(x) == IF Known("hh", x) /\ p = 0 THEN Nothing
            ELSE IF ~Pass("hh", x) THEN Refused("hh", x)
            ELSE LET k == CallK(x) IN
                 [ok |-> k.ok, log |-> <<Ran("hh")>> \o k.log,
                  new |-> k.new \cup (IF k.ok THEN {<<"hh", x>>} ELSE {}),
                  pend |-> k.pend \cup (IF k.ok THEN {} ELSE {<<"hh", x>>})]

Obs == [req_s |-> req', done_s |-> done']
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs @@ Obs]
-----------------------------------------------------------------------------
Init == /\ fg \in SUBSET Guards /\ hg \in SUBSET Guards /\ Cardinality(fg \cup hg) >= 1 /\ p \in {0, 1}
        /\ allow = [g \in Guards |-> Args] /\ done = {} /\ req = {} /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
More == n < MaxSteps /\ n' = n + 1

Call(f, x) ==
  LET r == IF f = "kk" THEN CallK(x) ELSE CallH(x) IN
  /\ More /\ done' = done \cup r.new /\ req' = (req \ r.new) \cup (r.pend \ done)
  /\ UNCHANGED <<fg, hg, p, allow>>
  /\ Step("Call", [f |-> f, x |-> x], [ok |-> r.ok, log |-> r.log])
Can(f, x) ==
  /\ More /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Can", [f |-> f, x |-> x],
          [can |-> Pass(f, x), log |-> <<IF Pass(f, x) THEN [g |-> Sorted(G(f)), b |-> "-"] ELSE Failed>>])
Swarm(f, x) ==
  /\ More /\ req' = IF Known(f, x) THEN req ELSE req \cup {<<f, x>>}
  /\ UNCHANGED <<fg, hg, p, allow, done>>
  /\ Step("Swarm", [f |-> f, x |-> x], [log |-> <<>>])
World(g, A) ==
  /\ More /\ allow' = [allow EXCEPT ![g] = A]
  /\ UNCHANGED <<fg, hg, p, done, req>>
  /\ Step("World", [g |-> g, lets |-> A], [log |-> <<>>])
(* The session ends; a new one finds functions by addresses, or defines them again. *)
Session ==
  /\ More /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Session", <<>>, [log |-> <<>>])
(* Defining again what is defined: the guards given in another order or form. *)
Again(f) ==
  /\ More /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Again", [f |-> f], [accepted |-> TRUE, log |-> <<>>])
(* ... with other guards. *)
Other(f, S) ==
  /\ More /\ S # G(f) /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Other", [f |-> f, guards |-> Sorted(S)], [accepted |-> FALSE, log |-> <<>>])
Bad(kind, S) ==
  /\ More /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Bad", [kind |-> kind, guards |-> Sorted(S)], [accepted |-> FALSE, log |-> <<>>])
(* The addresses of calls of functions that only differ in guards: which of them, or *)
(* their code.                                                               *)
Twin(S, T, v) ==
  /\ More /\ UNCHANGED <<fg, hg, p, allow, done, req>>
  /\ Step("Twin", [fg |-> Sorted(S), hg |-> Sorted(T), v |-> v],
          [samek |-> S = fg /\ (v = 1 \/ S = {}),
           sameh |-> S = fg /\ T = hg /\ (v = 1 \/ S \cup T = {}), log |-> <<>>])

NextAll == \/ \E f \in Fns, x \in Args : Call(f, x) \/ Can(f, x) \/ Swarm(f, x)
           \/ \E g \in fg \cup hg, A \in SUBSET Args : A # allow[g] /\ World(g, A)
           \/ Session
           \/ \E f \in Fns : Again(f) \/ \E S \in SUBSET Guards : Other(f, S)
           \/ \E k \in BadGuards, S \in {{}, Guards} : Bad(k, S)
           \/ \E S, T \in SUBSET Guards, v \in {1, 2} : (S = fg \/ T = hg) /\ Twin(S, T, v)
Next == LET r == RandomElement(1..20) f == RandomElement(Fns) x == RandomElement(Args) IN
        IF r <= 8 THEN Call(f, x) ELSE IF r <= 11 THEN Can(f, x) ELSE IF r = 12 THEN Swarm(f, x)
        ELSE IF r <= 15 THEN World(RandomElement(fg \cup hg), RandomElement(SUBSET Args))
        ELSE IF r = 16 THEN Session
        ELSE IF r = 17 THEN Again(f)
        ELSE IF r = 18 THEN \E S \in {RandomElement(SUBSET Guards \ {G(f)})} : Other(f, S)
        ELSE IF r = 19 THEN Bad(RandomElement(BadGuards), RandomElement(SUBSET Guards))
        ELSE Twin(RandomElement({fg, fg, RandomElement(SUBSET Guards)}),
                  RandomElement({hg, RandomElement(SUBSET Guards)}), RandomElement({1, 2}))
NextBad == \E k \in BadGuards, S \in {{}, fg} : Bad(k, S)
Spec == Init /\ [][NextAll]_vars
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

TypeOK == done \subseteq Fns \X Args /\ req \subseteq Fns \X Args
Pending == done \cap req = {}
\* a body only ran, and a result only appears, when all of the guards were for it
Guarded == [][/\ \A c \in done' \ done : Pass(c[1], c[2])
              /\ ev'.a = "Call" => \A i \in DOMAIN ev'.o.log :
                      ev'.o.log[i].b = "-" \/ Pass(ev'.o.log[i].b, ev'.x)]_vars
\* the answer to "can it be executed" is what happens to a call that is made then
Truthful == [][ev'.a = "Call" /\ ~Pass(ev'.f, ev'.x) => ~ev'.o.ok \/ (p = 0 /\ Known(ev'.f, ev'.x))]_vars
=============================================================================
