------------------------------- MODULE Islands -------------------------------
(***************************************************************************)
(* What an island holds, per portal and session (C12): a definition for    *)
(* each name, of a source and a kind. Functions are defined from text,     *)
(* from callables, from wrappers there are, and from pickles of those; a   *)
(* definition is accepted if it says what the island has, or is the first. *)
(* Wrappers are handles: what happens on a call is up to the island alone. *)
(*   Sources: 1 needs nothing, 2 calls the other function, 3 calls itself, *)
(*   4 both of them, 5 a function nobody defines.                          *)
(*   Kinds: guarded is pure, with the other function as a guard; listed is *)
(*   pure with an empty list of guards.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Order, Islands, Default, Portals, Sources, Kinds, Args, MaxD, MaxSteps, MaxW
VARIABLES defs, W, known, results, n, ev
vars == <<defs, W, known, results, n>>
View == vars
St == [defs |-> defs, W |-> W, known |-> known, results |-> results, n |-> n]

Range(s) == {s[j] : j \in DOMAIN s}
Names == Range(Order)
Other(m) == CHOOSE x \in Names : x # m
None == [s |-> 0, k |-> "none"]
NoDefs == [t \in Portals |-> [i \in Islands |-> [m \in Names |-> None]]]
Pure == {"pure", "guarded", "listed"}

(* the functions a source calls *)
Used(m, s) == CASE s = 1 -> {} [] s = 2 -> {Other(m)} [] s = 3 -> {m} [] s = 4 -> Names [] s = 5 -> {"nobody"}
Needs(D, m) == Used(m, D[m].s) \union (IF D[m].k = "guarded" THEN {Other(m)} ELSE {})
Has(D, m) == m \in Names /\ D[m].s > 0
Step1(D, S) == S \union UNION {Needs(D, m) : m \in {x \in S : Has(D, x)}}
RECURSIVE Close(_, _)
Close(D, S) == IF Step1(D, S) = S THEN S ELSE Close(D, Step1(D, S))
Closure(D, m) == Close(D, {m})
(* a function declared strictly autonomous may call itself, and no other *)
Fair(D, m) == D[m].k = "strict" => Used(m, D[m].s) \subseteq {m}
Works(D, m) == \A x \in Closure(D, m) : Has(D, x) /\ Fair(D, x)
(* a guard needs no other function, whatever it was declared as *)
CanGuard(D, m) == Has(D, m) /\ Used(m, D[m].s) \subseteq {m}
Parts(D, m) == {<<x, D[x]>> : x \in Closure(D, m)}

RECURSIVE Val(_, _, _)
Val(D, m, d) == <<m, D[m].s, IF d = 0 THEN <<>>
                 ELSE LET us == SelectSeq(Order, LAMBDA x : x \in Used(m, D[m].s))
                      IN [j \in DOMAIN us |-> Val(D, us[j], d - 1)]>>
Id(D, i, m, a, d) == [f |-> m, i |-> i, parts |-> Parts(D, m), a |-> a, d |-> d]
RECURSIVE Runs(_, _, _, _, _)
Runs(D, i, m, a, d) ==
  IF D[m].k \in Pure /\ Id(D, i, m, a, d) \in results THEN {}
  ELSE {<<m, d>>} \union (IF D[m].k = "guarded" THEN Runs(D, i, Other(m), a, d) ELSE {})
                  \union (IF d = 0 THEN {} ELSE UNION {Runs(D, i, x, a, d - 1) : x \in Used(m, D[m].s)})
New(D, i, a, R) == {Id(D, i, r[1], a, r[2]) : r \in {x \in R : D[x[1]].k \in Pure}}
Index(id) == IF \E j \in DOMAIN known : known[j] = id
             THEN CHOOSE j \in DOMAIN known : known[j] = id ELSE Len(known) + 1
(* all that the islands hold, and those there are *)
All(d) == {<<t, i, m, d[t][i][m].s, d[t][i][m].k>> : <<t, i, m>> \in
              {x \in Portals \X Islands \X Names : d[x[1]][x[2]][x[3]].s > 0}}
Isles(d) == {<<t, i>> : <<t, i>> \in {x \in Portals \X Islands :
              x[2] = Default \/ \E m \in Names : d[x[1]][x[2]][m].s > 0}}
-----------------------------------------------------------------------------
Init == /\ defs = NoDefs /\ W = <<>> /\ known = <<>> /\ results = {} /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
Step(name, args, obs) ==
  ev' = [a |-> name] @@ args @@ [o |-> obs @@ [all_s |-> All(defs'), isles_s |-> Isles(defs')]]
More == n < MaxSteps /\ n' = n + 1

Session == /\ More /\ defs' = NoDefs /\ W' = <<>> /\ UNCHANGED <<known, results>>
           /\ Step("Session", [x |-> 0], [ok |-> TRUE])
Accepts(t, i, m, s, k) ==
  LET D == defs[t][i] IN
  /\ D[m].s = 0 \/ D[m] = [s |-> s, k |-> k]
  /\ k = "guarded" => CanGuard(D, Other(m))
Take(t, i, m, s, k) ==
  /\ defs' = [defs EXCEPT ![t][i][m] = [s |-> s, k |-> k]]
  /\ W' = (IF Len(W) < MaxW THEN Append(W, [t |-> t, i |-> i, m |-> m])
           ELSE [W EXCEPT ![1 + (n % MaxW)] = [t |-> t, i |-> i, m |-> m]])
Put == IF Len(W) < MaxW THEN Len(W) + 1 ELSE 1 + (n % MaxW)
Define(t, i, m, s, k) ==
  LET ok == Accepts(t, i, m, s, k) IN
  /\ More /\ UNCHANGED <<known, results>>
  /\ IF ok THEN Take(t, i, m, s, k) ELSE UNCHANGED <<defs, W>>
  /\ Step("Define", [t |-> t, i |-> i, m |-> m, s |-> s, k |-> k, w |-> Put], [ok |-> ok])
(* a decorator on a wrapper there is *)
Wrap(w, t, i, k) ==
  LET x == W[w]
      D == defs[x.t][x.i][x.m]
      ok == i = x.i /\ Accepts(t, i, x.m, D.s, k) IN
  /\ More /\ UNCHANGED <<known, results>>
  /\ IF ok THEN Take(t, i, x.m, D.s, k) ELSE UNCHANGED <<defs, W>>
  /\ Step("Wrap", [from |-> w, t |-> t, i |-> i, k |-> k, w |-> Put], [ok |-> ok])
(* a pickle of a wrapper *)
Travel(w, t) ==
  LET x == W[w]
      D == defs[x.t][x.i][x.m]
      ok == Accepts(t, x.i, x.m, D.s, D.k) IN
  /\ More /\ D.k \notin Pure /\ UNCHANGED <<known, results>>
  /\ IF ok THEN Take(t, x.i, x.m, D.s, D.k) ELSE UNCHANGED <<defs, W>>
  /\ Step("Travel", [from |-> w, t |-> t, w |-> Put], [ok |-> ok])
(* what can't be a function here at all *)
BadDefine(t, i, m, s, k) ==
  /\ More /\ UNCHANGED <<defs, W, known, results>>
  /\ Step("BadDefine", [t |-> t, i |-> i, m |-> m, s |-> s, k |-> k], [ok |-> FALSE])
Call(w, a, d) ==
  LET x == W[w]
      D == defs[x.t][x.i]
      ok == Works(D, x.m)
      R == Runs(D, x.i, x.m, a, d) IN
  /\ More /\ UNCHANGED <<defs, W, known>>
  /\ results' = (IF ok THEN results \union New(D, x.i, a, R) ELSE results)
  /\ Step("Call", [w |-> w, x |-> a, d |-> d],
          IF ok THEN [ok |-> TRUE, value |-> Val(D, x.m, d), ran_s |-> R]
                ELSE [ok |-> FALSE, value |-> <<>>, ran_s |-> {}])
Address(w, a, d) ==
  LET x == W[w]
      D == defs[x.t][x.i]
      id == Id(D, x.i, x.m, a, d) IN
  /\ More /\ D[x.m].k \in Pure /\ UNCHANGED <<defs, W, results>>
  /\ IF Works(D, x.m)
     THEN /\ known' = (IF Index(id) > Len(known) THEN Append(known, id) ELSE known)
          /\ Step("Address", [w |-> w, x |-> a, d |-> d], [j |-> Index(id), ready |-> id \in results])
     ELSE /\ UNCHANGED known
          /\ Step("Address", [w |-> w, x |-> a, d |-> d], [j |-> 0, ready |-> FALSE])
(* what a function says of itself *)
Look(w) ==
  LET x == W[w]
      D == defs[x.t][x.i] IN
  /\ More /\ UNCHANGED <<defs, W, known, results>>
  /\ Step("Look", [w |-> w],
          IF Works(D, x.m) THEN [s |-> D[x.m].s, k |-> D[x.m].k, deps_s |-> Closure([y \in Names |-> [D[y] EXCEPT !.k = "pure"]], x.m)]
          ELSE [s |-> D[x.m].s, k |-> D[x.m].k, deps_s |-> {}])

Next == \/ Session
        \/ \E t \in Portals, i \in Islands, m \in Names, s \in Sources, k \in Kinds : Define(t, i, m, s, k)
        \/ \E t \in Portals, i \in Islands, k \in Kinds, w \in DOMAIN W : Wrap(w, t, i, k)
        \/ \E t \in Portals, w \in DOMAIN W : Travel(w, t)
        \/ \E t \in Portals, i \in Islands, m \in Names, k \in Kinds : BadDefine(t, i, m, 1, k)
        \/ \E w \in DOMAIN W, a \in Args, d \in 0..MaxD : Call(w, a, d) \/ Address(w, a, d)
        \/ \E w \in DOMAIN W : Look(w)
One(S) == {RandomElement(IF n < 0 THEN {} ELSE S)}   \* so that TLC does not take it for a constant
Again(t, i, m) == defs[t][i][m].s > 0
NextSim ==
  \E r \in One(1..24), t \in One(Portals), i \in One(Islands), m \in One(Names), a \in One(Args), d \in One(0..MaxD),
     s \in One(Sources), k \in One(Kinds) :
    CASE r = 1 /\ n > 10 -> Session
      [] r = 2 -> BadDefine(t, i, m, s, k)
      [] r \in {3, 4} /\ Again(t, i, m) -> Define(t, i, m, IF s = 1 THEN s ELSE defs[t][i][m].s,
                                                  IF s = 2 THEN k ELSE defs[t][i][m].k)
      [] r \in {5, 6, 7} /\ W # <<>> ->
           \E w \in One(DOMAIN W) : Wrap(w, t, IF s = 1 THEN i ELSE W[w].i,
                                         IF s \in {2, 3} THEN k ELSE defs[W[w].t][W[w].i][W[w].m].k)
      [] r = 8 /\ \E w \in DOMAIN W : defs[W[w].t][W[w].i][W[w].m].k \notin Pure ->
           \E w \in One({x \in DOMAIN W : defs[W[x].t][W[x].i][W[x].m].k \notin Pure}) : Travel(w, t)
      [] r \in 9..14 /\ W # <<>> -> \E w \in One(DOMAIN W) : Call(w, a, d)
      [] r \in 15..16 /\ \E w \in DOMAIN W : defs[W[w].t][W[w].i][W[w].m].k \in Pure ->
           \E w \in One({x \in DOMAIN W : defs[W[x].t][W[x].i][W[x].m].k \in Pure}) : Address(w, a, d)
      [] r = 17 /\ W # <<>> -> \E w \in One(DOMAIN W) : Look(w)
      [] OTHER -> Define(t, i, m, s, k)
Emit == PrintT(ToJson([k |-> "T", s |-> St, e |-> ev', t |-> St', l |-> TLCGet("level")]))
-----------------------------------------------------------------------------
(* Within a session a definition stays what it is, and what one island or  *)
(* portal gets does not touch the others.                                  *)
Kept == [][defs' = NoDefs \/ (\A t \in Portals, i \in Islands, m \in Names :
             defs[t][i][m].s > 0 => defs'[t][i][m] = defs[t][i][m])]_vars
OneAtATime == [][defs' = NoDefs \/ Cardinality(All(defs') \ All(defs)) <= 1]_vars
(* Every wrapper stands for something its island has *)
Stand == \A w \in DOMAIN W : defs[W[w].t][W[w].i][W[w].m].s > 0
(* A function that works goes on to work, with the same code *)
Steady == [][defs' = NoDefs \/ (\A t \in Portals, i \in Islands, m \in Names :
               Works(defs[t][i], m) => Works(defs'[t][i], m) /\ Parts(defs'[t][i], m) = Parts(defs[t][i], m))]_vars
=============================================================================
