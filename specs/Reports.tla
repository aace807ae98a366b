------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* Portals, their settings and their reports (C27). A disk holds values,   *)
(* results and requests of calls, and the exceptions of each day. A portal *)
(* is a class, a disk, settings, and the functions it got to know.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Families,   \* which classes of portals are used together
          Disks, Isles, Ps, Workers, Runtimes, Xs, MaxPortals, MaxSteps

VARIABLES fam, disk, portals, day, n, ev
vars == <<fam, disk, portals, day, n>>
St == [fam |-> fam, disk |-> disk, portals |-> portals, day |-> day, n |-> n]
View == vars

Level(c) == CASE c = "Basic" -> 0 [] c = "Logging" -> 1 [] c \in {"Data", "Ordinary", "Safe"} -> 2
              [] c = "Autonomous" -> 3 [] c = "Pure" -> 4 [] c = "Swarming" -> 5
L(i) == Level(portals[i].cls)
D(i) == portals[i].disk
Exc == [1..3 -> 0..9]
Empty == [vals |-> {}, res |-> {}, req |-> {}, exc |-> [k \in 1..3 |-> 0]]
Default == "Samos"
Isle(s) == IF s.isle = "" THEN Default ELSE s.isle

(* Only the settings a class has; -1 or "" for what is not given.            *)
Settings(c) == [cls : {c}, disk : Disks,
                p : IF Level(c) >= 2 THEN Ps ELSE {-1}, isle : IF Level(c) >= 3 THEN Isles ELSE {""},
                nw : IF Level(c) = 5 THEN Workers ELSE {0}, rt : IF Level(c) = 5 THEN Runtimes ELSE {""}]
Portal(s) == s @@ [funs |-> IF Level(s.cls) >= 3 THEN {<<Isle(s), "">>} ELSE {}]   \* <<island, name>>, "" for the island itself
Islands(q) == {x[1] : x \in q.funs}
Names(q, i) == {x[2] : x \in {y \in q.funs : y[1] = i /\ y[2] # ""}}
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
Report(q) ==
  LET d == disk'[q.disk] lv == Level(q.cls) IN
  [cls |-> q.cls, disk |-> q.disk]
  @@ (IF lv >= 1 THEN [total |-> Sum(d.exc, 1..3), today |-> d.exc[day']] ELSE <<>>)
  @@ (IF lv >= 2 THEN [p |-> IF q.p = -1 THEN 0 ELSE q.p] ELSE <<>>)
  @@ (IF lv >= 3 THEN [n_isles |-> Cardinality(Islands(q)), default |-> Isle(q), isles_s |-> Islands(q),
                       funs_s |-> {[isle |-> i, n |-> Cardinality(Names(q, i)), names_s |-> Names(q, i)] : i \in Islands(q)}]
      ELSE <<>>)
  @@ (IF lv >= 4 THEN [results |-> Cardinality(d.res), queue |-> Cardinality(d.req)] ELSE <<>>)
  @@ (IF lv >= 5 THEN [workers |-> q.nw] ELSE <<>>)
\* the driver compares the number of values with what lies on the disk
Reports == [reps |-> [i \in DOMAIN portals' |-> Report(portals'[i])]]
\* nor does anything change on disks an action has no business with
Step(name, args, obs) == ev' = [a |-> name] @@ args @@ [o |-> obs @@ Reports @@ [others |-> <<>>]]
-----------------------------------------------------------------------------
Init == /\ fam \in Families /\ disk = [d \in Disks |-> Empty] /\ portals = <<>> /\ day = 1 /\ n = 0
        /\ ev = [a |-> "Init"] /\ PrintT(ToJson([k |-> "I", t |-> St]))
More == n < MaxSteps /\ n' = n + 1

New(s) ==
  /\ More /\ Len(portals) < MaxPortals
  /\ portals' = Append(portals, Portal(s)) /\ UNCHANGED <<fam, disk, day>>
  /\ Step("New", [s |-> s], [launched |-> s.nw])
Rebuild(i) ==
  /\ More /\ Len(portals) < MaxPortals
  /\ portals' = Append(portals, [portals[i] EXCEPT !.funs = IF L(i) >= 3 THEN {<<Isle(portals[i]), "">>} ELSE {}])
  /\ UNCHANGED <<fam, disk, day>>
  /\ Step("Rebuild", [i |-> i], [alike |-> TRUE, launched |-> portals[i].nw])
Store(i, v) ==
  /\ More /\ L(i) >= 2 /\ disk' = [disk EXCEPT ![D(i)].vals = @ \cup {v}] /\ UNCHANGED <<fam, portals, day>>
  /\ Step("Store", [i |-> i, v |-> v], [more |-> IF v \in disk[D(i)].vals THEN 0 ELSE 1])
Define(i, isle, f) ==
  /\ More /\ L(i) >= 3
  /\ LET where == IF isle = "" THEN Isle(portals[i]) ELSE isle IN
     portals' = [portals EXCEPT ![i].funs = @ \cup {<<where, "">>, <<where, f>>}]
  /\ UNCHANGED <<fam, disk, day>>
  /\ Step("Define", [i |-> i, isle |-> isle, f |-> f], <<>>)
Call(i, w, x) ==
  /\ More /\ L(i) >= 4
  /\ disk' = [disk EXCEPT ![D(i)].res = @ \cup {<<w, x>>}, ![D(i)].req = @ \ {<<w, x>>}]
  /\ UNCHANGED <<fam, portals, day>>
  /\ Step("Call", [i |-> i, isle |-> w[1], f |-> w[2], x |-> x], [value |-> x])
Swarm(i, w, x) ==
  /\ More /\ L(i) >= 4
  /\ disk' = IF <<w, x>> \in disk[D(i)].res THEN disk ELSE [disk EXCEPT ![D(i)].req = @ \cup {<<w, x>>}]
  /\ UNCHANGED <<fam, portals, day>>
  /\ Step("Swarm", [i |-> i, isle |-> w[1], f |-> w[2], x |-> x], <<>>)
(* An exception leaves the blocks of two portals, maybe the same one.        *)
Fail(i, j) ==
  /\ More /\ L(i) >= 1 /\ \A d \in {D(i), D(j)} : disk[d].exc[day] < 9
  /\ disk' = [d \in Disks |-> IF d \in {D(i), D(j)} THEN [disk[d] EXCEPT !.exc[day] = @ + 1] ELSE disk[d]]
  /\ UNCHANGED <<fam, portals, day>>
  /\ Step("Fail", [i |-> i, j |-> j], <<>>)
(* A function raises: the exception is recorded, the call stays requested.   *)
FailCall(i, w) ==
  /\ More /\ L(i) >= 4 /\ disk[D(i)].exc[day] < 9
  /\ disk' = [disk EXCEPT ![D(i)].exc[day] = @ + 1, ![D(i)].req = @ \cup {<<w, 0>>}]
  /\ UNCHANGED <<fam, portals, day>>
  /\ Step("FailCall", [i |-> i, isle |-> w[1], f |-> w[2], x |-> 0], <<>>)
NextDay == /\ More /\ day < 3 /\ day' = day + 1 /\ UNCHANGED <<fam, disk, portals>> /\ Step("NextDay", <<>>, <<>>)
Session == /\ More /\ portals # <<>> /\ portals' = <<>> /\ UNCHANGED <<fam, disk, day>>
           /\ Step("Session", <<>>, <<>>)
Whole(i) == {w \in portals[i].funs : w[2] # ""}

NextAll == \/ \E c \in fam : \E s \in Settings(c) : New(s)
           \/ \E i \in DOMAIN portals : \/ Rebuild(i) \/ Store(i, 1) \/ \E j \in DOMAIN portals : Fail(i, j)
                                        \/ Define(i, "", "f") \/ \E w \in Whole(i) : Call(i, w, 1) \/ Swarm(i, w, 1)
           \/ NextDay
Next ==
  IF portals = <<>> \/ (Len(portals) < MaxPortals /\ RandomElement(1..5) = 1)
  THEN IF portals # <<>> /\ RandomElement(1..2) = 1 THEN \E i \in {RandomElement(DOMAIN portals)} : Rebuild(i)
       ELSE \E s \in {RandomElement(Settings(RandomElement(fam)))} : New(s)
  ELSE \E r \in {RandomElement(1..12)}, i \in {RandomElement(DOMAIN portals)}, x \in {RandomElement(Xs)} :
       IF r = 1 THEN Session \/ NextDay
       ELSE IF r <= 3 /\ L(i) >= 1 THEN \E j \in {RandomElement(DOMAIN portals)} : Fail(i, j)
       ELSE IF L(i) <= 1 THEN Fail(i, i) \/ NextDay \/ Session
       ELSE IF L(i) = 2 \/ r <= 5 THEN Store(i, x)
       ELSE IF L(i) = 3 \/ Whole(i) = {} \/ r <= 7
            THEN \E g \in {RandomElement({"f", "g"})}, s \in {RandomElement(Isles)} : Define(i, s, g)
       ELSE \E w \in {RandomElement(Whole(i))} : IF r <= 8 THEN Swarm(i, w, x)
                                                         ELSE IF r = 9 THEN FailCall(i, w) ELSE Call(i, w, x)
Spec == Init /\ [][NextAll]_vars
Emit == PrintT(ToJson([k |-> "T", l |-> TLCGet("level"), s |-> St, e |-> ev', t |-> St']))

TypeOK == \A d \in Disks : disk[d].res \cap disk[d].req = {} /\ disk[d].exc \in Exc
\* an action through portals over some disks leaves the other disks alone, and what portals know about functions
Isolated == [][/\ ev'.a \in {"Store", "Call", "Swarm"} => \A d \in Disks \ {portals[ev'.i].disk} : disk'[d] = disk[d]
               /\ ev'.a \in {"New", "Rebuild", "Define", "NextDay", "Session"} => disk' = disk
               /\ ev'.a = "Define" => \A j \in DOMAIN portals \ {ev'.i} : portals'[j] = portals[j]]_vars
\* a rebuilt portal reports the same about what is stored, and has the same settings
Rebuilt == [][ev'.a = "Rebuild" =>
              LET a == portals'[ev'.i] b == portals'[Len(portals')] IN
              /\ [a EXCEPT !.funs = {}] = [b EXCEPT !.funs = {}]
              /\ Report([a EXCEPT !.funs = b.funs]) = Report(b)]_vars
=============================================================================
