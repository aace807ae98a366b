---------------------------- MODULE CallIdentity ----------------------------
(***************************************************************************)
(* Functions, in versions, that call and guard each other, and the calls   *)
(* of them (C14, C22). What a call is, is its function's name and island,  *)
(* its code and guards, those of everything it needs, and its arguments.   *)
(* An address stands for that; from it, a session that does not know the   *)
(* functions gets everything it needs. A session has one version of each   *)
(* function per portal and island.                                         *)
(*   uses[n][v]: the functions that version v of n calls;                  *)
(*   grds[n][v]: its guards. Version 3 is version 1 with other guards.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Order,                \* the functions, in the order of their names
          GOrder,               \* those that are only guards
          Islands, Portals, Args, MaxD, MaxSteps,
          PureOnly, Many      \* graphs to start from
VARIABLES uses, grds, pure, defs, known, results, n, ev
vars == <<uses, grds, pure, defs, known, results, n>>
View == vars
St == [uses |-> uses, grds |-> grds, pure |-> pure, n |-> n, defs |-> defs,
       known |-> [j \in DOMAIN known |-> known[j].id], results |-> results]

Range(s) == {s[j] : j \in DOMAIN s}
Names == Range(Order)
Gs == Range(GOrder)
Src(v) == IF v = 3 THEN 1 ELSE v
Canon(m, v) == IF m \in Names /\ v = 3 /\ (m \notin pure \/ grds[m][3] = grds[m][1]) THEN 1 ELSE v
Grds(m, v) == IF m \in pure THEN grds[m][v] ELSE {}
Used(m, v) == IF m \in Names THEN uses[m][Src(v)] ELSE {}

(* D: the versions of the functions of an island, 0 if there is none *)
Step1(D, S) == S \union UNION {Used(m, D[m]) \union Grds(m, D[m]) : m \in {x \in S \intersect Names : D[x] > 0}}
RECURSIVE Close(_, _)
Close(D, S) == IF Step1(D, S) = S THEN S ELSE Close(D, Step1(D, S))
Closure(D, m) == Close(D, {m})
Complete(D, m) == \A x \in Closure(D, m) : D[x] > 0
Parts(D, m) == {<<x, D[x]>> : x \in Closure(D, m)}

RECURSIVE Val(_, _, _)
Val(D, m, d) == <<m, Src(D[m]), IF d = 0 THEN <<>>
                 ELSE LET us == SelectSeq(Order, LAMBDA x : x \in Used(m, D[m]))
                      IN [j \in DOMAIN us |-> Val(D, us[j], d - 1)]>>
Id(D, i, m, a, d) == [f |-> m, i |-> i, parts |-> Parts(D, m), a |-> a, d |-> d]
(* the bodies that run in a call of m, and the calls that get results *)
RECURSIVE Runs(_, _, _, _, _)
Runs(D, i, m, a, d) ==
  IF m \in pure /\ Id(D, i, m, a, d) \in results THEN {}
  ELSE {<<m, d>>} \union (IF d = 0 THEN {} ELSE UNION {Runs(D, i, x, a, d - 1) : x \in Used(m, D[m])})
New(D, i, a, R) == {Id(D, i, r[1], a, r[2]) : r \in {x \in R : x[1] \in pure}}

Index(id) == IF \E j \in DOMAIN known : known[j].id = id
             THEN CHOOSE j \in DOMAIN known : known[j].id = id ELSE Len(known) + 1
Keep(t, id, D) ==
  IF Index(id) <= Len(known) THEN [known EXCEPT ![Index(id)].at = @ \union {t}]
  ELSE Append(known, [id |-> id, at |-> {t}, val |-> Val(D, id.f, id.d)])
-----------------------------------------------------------------------------
NoDefs == [t \in Portals |-> [i \in Islands |-> [m \in Names \union Gs |-> 0]]]
(* mostly sparse graphs *)
Some(S) == {RandomElement(SUBSET S) \intersect RandomElement(SUBSET S)}
RInit == \E q \in 1..Many :
         /\ \E x \in {RandomElement([Names -> [1..2 -> SUBSET Names]])},
               y \in {RandomElement([Names -> [1..2 -> SUBSET Names]])} :
              uses = [m \in Names |-> [v \in 1..2 |-> x[m][v] \intersect y[m][v]]]
         /\ \E x \in {RandomElement([Names -> [1..3 -> SUBSET Gs]])},
               y \in {RandomElement([Names -> [1..3 -> SUBSET Gs]])} :
              grds = [m \in Names |-> [v \in 1..3 |-> x[m][v] \intersect y[m][v]]]
         /\ pure \in {RandomElement({S \in SUBSET Names : Order[1] \in S /\ (PureOnly => S = Names)})}
(* chains and loops, all of them *)
AInit == /\ uses \in [Names -> [1..2 -> {{}} \union {{x} : x \in Names}]] /\ pure = Names
         /\ \A m \in Names : uses[m][1] \subseteq uses[m][2] \/ uses[m][2] = {}
         /\ grds = [m \in Names |-> [v \in 1..3 |-> IF v = 3 THEN Gs ELSE {}]]
Rest == /\ defs = NoDefs /\ known = <<>> /\ results = {} /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
InitR == RInit /\ Rest
InitA == AInit /\ Rest

Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs]
More == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<uses, grds, pure>>

Session == /\ More /\ defs' = NoDefs /\ UNCHANGED <<known, results>>
           /\ Step("Session", [x |-> 0], [ok |-> TRUE])
Define(t, i, m, v) ==
  LET D == defs[t][i]
      ok == /\ D[m] = 0 \/ Canon(m, D[m]) = Canon(m, v)
            /\ m \in Names => \A g \in Grds(m, v) : D[g] > 0 IN
  /\ More /\ defs' = (IF ok /\ D[m] = 0 THEN [defs EXCEPT ![t][i][m] = Canon(m, v)] ELSE defs)
  /\ UNCHANGED <<known, results>>
  /\ Step("Define", [t |-> t, i |-> i, f |-> m, v |-> v], [ok |-> ok])
(* Two forms of the same call, of the ways to write it there are *)
Address(t, i, m, a, d) ==
  LET D == defs[t][i] IN
  /\ More /\ m \in pure /\ D[m] > 0 /\ UNCHANGED <<defs, results>>
  /\ IF Complete(D, m)
     THEN /\ known' = Keep(t, Id(D, i, m, a, d), D)
          /\ Step("Address", [t |-> t, i |-> i, f |-> m, x |-> a, d |-> d, val |-> Val(D, m, d)],
                  [j |-> Index(Id(D, i, m, a, d))])
     ELSE /\ UNCHANGED known
          /\ Step("Address", [t |-> t, i |-> i, f |-> m, x |-> a, d |-> d], [j |-> 0])
Call(t, i, m, a, d) ==
  LET D == defs[t][i]
      R == Runs(D, i, m, a, d)
      ok == Complete(D, m) IN
  /\ More /\ m \in Names /\ D[m] > 0 /\ UNCHANGED <<defs, known>>
  /\ results' = (IF ok THEN results \union New(D, i, a, R) ELSE results)
  /\ Step("Call", [t |-> t, i |-> i, f |-> m, x |-> a, d |-> d],
          IF ok THEN [ok |-> TRUE, value |-> Val(D, m, d), ran_s |-> R]
                ELSE [ok |-> FALSE, value |-> <<>>, ran_s |-> {}])
Read(t, j) ==
  LET k == known[j] IN
  /\ More /\ t \in k.at /\ UNCHANGED <<defs, known, results>>
  /\ Step("Read", [t |-> t, j |-> j],
          IF k.id \in results THEN [ready |-> TRUE, value |-> k.val] ELSE [ready |-> FALSE, value |-> <<>>])
Fits(D, k) == \A p \in k.id.parts : D[p[1]] \in {0, p[2]}
With(D, k) == [x \in DOMAIN D |-> IF \E p \in k.id.parts : p[1] = x
                                  THEN (CHOOSE p \in k.id.parts : p[1] = x)[2] ELSE D[x]]
Restore(t, j) ==
  LET k == known[j]
      i == k.id.i
      ok == Fits(defs[t][i], k) IN
  /\ More /\ t \in k.at /\ UNCHANGED <<known, results>>
  /\ defs' = (IF ok THEN [defs EXCEPT ![t][i] = With(@, k)] ELSE defs)
  /\ Step("Restore", [t |-> t, j |-> j],
          IF ok THEN [ok |-> TRUE, f |-> k.id.f, i |-> i, v |-> Src(With(defs[t][i], k)[k.id.f]),
                      guards_s |-> Grds(k.id.f, With(defs[t][i], k)[k.id.f]),
                      x |-> k.id.a, d |-> k.id.d, j |-> j, parts_s |-> {<<p[1], Src(p[2])>> : p \in k.id.parts}]
                ELSE [ok |-> FALSE])
Execute(t, j) ==
  LET k == known[j]
      i == k.id.i
      ok == Fits(defs[t][i], k)
      D == With(defs[t][i], k)
      R == Runs(D, i, k.id.f, k.id.a, k.id.d) IN
  /\ More /\ t \in k.at /\ UNCHANGED known
  /\ defs' = (IF ok THEN [defs EXCEPT ![t][i] = With(@, k)] ELSE defs)
  /\ results' = (IF ok THEN results \union New(D, i, k.id.a, R) ELSE results)
  /\ Step("Execute", [t |-> t, j |-> j],
          IF ok THEN [ok |-> TRUE, value |-> k.val, ran_s |-> R]
                ELSE [ok |-> FALSE, value |-> <<>>, ran_s |-> {}])

Next == \/ Session
        \/ \E t \in Portals, i \in Islands, m \in Names \union Gs, v \in 1..3 :
              (m \in Gs \/ m \notin pure => v < 3) /\ Define(t, i, m, v)
        \/ \E t \in Portals, i \in Islands, m \in Names, a \in Args, d \in 0..MaxD :
              Address(t, i, m, a, d) \/ Call(t, i, m, a, d)
        \/ \E t \in Portals, j \in DOMAIN known : Read(t, j) \/ Restore(t, j) \/ Execute(t, j)
(* for simulation: some of each *)
One(S) == {RandomElement(IF n < 0 THEN {} ELSE S)}   \* so that TLC does not take it for a constant
Missing(D) == {m \in Names \union Gs : D[m] = 0}
NextSim ==
  \E r \in One(1..20), t \in One(Portals), i \in One(Islands), a \in One(Args), d \in One(0..MaxD) :
    CASE r = 1 /\ known # <<>> -> Session
      [] r \in 2..8 /\ Missing(defs[t][i]) # {} ->
           \E m \in One(IF r < 4 THEN Names \union Gs
                        ELSE IF Missing(defs[t][i]) \intersect Gs # {} THEN Missing(defs[t][i]) \intersect Gs
                        ELSE Missing(defs[t][i])), v \in One(1..3) :
              Define(t, i, m, IF m \in Names THEN (IF m \notin pure THEN Src(v) ELSE v)
                              ELSE IF v = 3 THEN 1 ELSE v)
      [] r \in 9..11 /\ \E m \in pure : defs[t][i][m] > 0 ->
           \E m \in One({x \in pure : defs[t][i][x] > 0}) : Address(t, i, m, a, d)
      [] r \in 12..14 /\ \E m \in Names : defs[t][i][m] > 0 ->
           \E m \in One({x \in Names : defs[t][i][x] > 0}) : Call(t, i, m, a, d)
      [] r \in 15..20 /\ known # <<>> ->
           \E j \in One(DOMAIN known) : \E u \in One(known[j].at) :
              IF r < 18 THEN Restore(u, j) ELSE IF r < 20 THEN Execute(u, j) ELSE Read(u, j)
      [] OTHER -> \E m \in One(Names \union Gs), v \in One(1..2) : Define(t, i, m, v)
Emit == PrintT(ToJson([k |-> "T", s |-> St, e |-> ev', t |-> St', l |-> TLCGet("level")]))
-----------------------------------------------------------------------------
(* An address stands for one call, and a call that is known stays known.    *)
OnePerCall == \A j, k \in DOMAIN known : known[j].id = known[k].id => j = k
Stable == [][/\ \A j \in DOMAIN known : known'[j].id = known[j].id /\ known'[j].val = known[j].val
             /\ results \subseteq results']_vars
(* What is restored is what was meant, whatever else there is in the session *)
Same == \A t \in Portals, j \in DOMAIN known :
          LET k == known[j]
              D == With(defs[t][k.id.i], k) IN
          Fits(defs[t][k.id.i], k) => Parts(D, k.id.f) = k.id.parts /\ Val(D, k.id.f, k.id.d) = k.val
=============================================================================
